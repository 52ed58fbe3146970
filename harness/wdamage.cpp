// I02: every damage of the enumerated kinds is reported.
#include "wmodel.h"
MC_RULE("an evaluation is one read of one damaged (or wrongly addressed) file; distinct_nontrivial counts the distinct file contents and resulting tensor contents among them; the verdict for each comes from an independent parser of the format");

static std::vector<Rec> recs_alpha() {
    return {{'C', {2, 1, 2, 3}, 1, {2}, "Conv"}, {'C', {2, 3, 1, 2}, 3, {0}, "Conv"}, {'C', {0, 0, 0, 0}, 0, {1}, "Conv"}, {'G', {2, 3}, 1, {3}, "Gemm"}, {'G', {1, 2}, 1, {0}, "MatMul"},
            {'G', {0, 0}, 0, {2}, "Gemm"}, {'G', {2, 2}, 1, {0}, "Transpose"}, {'B', {}, 0, {2, 2, 2, 2}, "BatchNormalization"}, {'B', {}, 0, {0, 1, 0, 2}, "BatchNormalization"}, {'A', {}, 0, {3}, "Add"}, {'A', {}, 0, {0}, "Add"}};
}
static void one(const char *what, const std::vector<Rec> &tensors_for, const std::string &bytes, size_t pos, uint32_t val, const std::string &file, int spare = 0, int drop = 0) {
    if (!mc::take()) return;
    auto d = [&] { std::string s = std::string(what) + " at byte " + std::to_string(pos) + " (" + std::to_string(val) + ") of " + file + "; tensors of "; for (auto &r : tensors_for) s += rstr(r) + " "; if (spare) s += "+spare"; if (drop) s += " minus last (" + std::to_string(drop) + ")"; return s; };
    MC_CASE(d);
    Net n; net_for(tensors_for, n);
    if (spare) { n.add_k({2, 1, 2, 3}); n.add_b({2}); }
    if (drop & 1 && n.k.size()) n.k.pop_back();
    if (drop & 2 && n.b.size()) n.b.pop_back();
    check_read(bytes, n, path_of("w"));
}
void mc::explore() {
    auto al = recs_alpha();
    std::vector<std::vector<Rec>> seqs; seqs.push_back({});
    for (auto &a : al) seqs.push_back({a});
    for (auto &a : al) for (auto &b : al) seqs.push_back({a, b});
    if (mc::thorough) for (auto &a : al) for (auto &b : al) for (auto &c : al) seqs.push_back({a, b, c});
    uint32_t salt = 1;
    for (size_t si = 0; si < seqs.size(); si++) {
        auto &r = seqs[si];
        std::vector<std::string> names; for (size_t i = 0; i < r.size(); i++) names.push_back("l" + std::to_string(i));
        FileBuf f = write_weights(r, "net", names, salt++);
        std::string fs = "file ["; for (auto &x : r) fs += rstr(x) + " "; fs += "]";
        for (int spare = 0; spare < 2; spare++) {
            for (size_t p = 0; p < f.s.size(); p++) one("cut", r, f.s.substr(0, p), p, 0, fs, spare);
            bool deep = r.size() <= 1;       // every wrong byte value for single records, a spread for longer ones
            for (auto &g : f.seg) {
                if (g.kind == 'v') continue;
                for (size_t p = g.off; p < g.off + g.len; p++) for (int b = 0; b < 256; b++) {
                    unsigned char old = f.s[p];
                    if (b == old) continue;
                    if (!deep && !(b == 0 || b == '\n' || b == 255 || b == (old ^ 1) || b == (old ^ 0x80) || b == ((old + 1) & 255) || b == ((old - 1) & 255) || b == (old ^ 0x20))) continue;
                    if (!deep && spare && !mc::thorough) continue;
                    std::string m = f.s; m[p] = (char) b;
                    one("byte replaced", r, m, p, b, fs, spare);
                }
                if (g.kind == 'c') {
                    uint32_t old; memcpy(&old, &f.s[g.off], 4);
                    for (uint32_t v : {0u, 1u, 2u, 3u, 4u, 5u, old + 1, old - 1, old * 2, old + 6, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x40000000u + old, 0x10000u, 0xfffffffeu, 0x80000001u}) {
                        std::string m = f.s; memcpy(&m[g.off], &v, 4); if (v != old) one("count replaced", r, m, g.off, v, fs, spare);
                    }
                }
                // a field missing, or written twice
                std::string m = f.s; m.erase(g.off, g.len); one("field missing", r, m, g.off, 0, fs, spare);
                m = f.s; m.insert(g.off, f.s.substr(g.off, g.len)); one("field doubled", r, m, g.off, 0, fs, spare);
            }
            // a record of another type in place of this one
            for (auto &g : f.seg) if (g.kind == 't') for (const char *t : {"Conv", "Gemm", "MatMul", "Transpose", "BatchNormalization", "Add", "", "conv", "Conv ", "Convolution", "Relu"}) {
                std::string m = f.s; m.replace(g.off, g.len, std::string(t) + "\n"); one("type replaced", r, m, g.off, 0, fs, spare);
            }
        }
        for (int drop = 1; drop < 4; drop++) one("tensors missing", r, f.s, 0, drop, fs, 0, drop);
        // the file of another network
        for (auto &o : seqs) if (o.size() <= 2 && (mc::thorough || r.size() < 2)) { one("other network", o, f.s, 0, 0, fs, 0); one("other network", o, f.s, 0, 0, fs, 1); }
        // two damaged counts at once
        if (r.size() == 1) {
            std::vector<Seg> cs; for (auto &g : f.seg) if (g.kind == 'c') cs.push_back(g);
            for (size_t i = 0; i < cs.size(); i++) for (size_t j = i + 1; j < cs.size(); j++) for (uint32_t v : {0u, 1u, 2u, 3u, 6u, 0x80000000u, 0xffffffffu, 0x10000u}) for (uint32_t w : {0u, 1u, 2u, 3u, 6u, 0x80000000u, 0xffffffffu, 0x10000u}) {
                std::string m = f.s; memcpy(&m[cs[i].off], &v, 4); memcpy(&m[cs[j].off], &w, 4); one("two counts replaced", r, m, cs[i].off, cs[j].off, fs, 1);
            }
        }
    }
    // long names and types: cut anywhere, the line feed missing, a type that no operator has
    for (auto &a : al) for (uint32_t ln : {98u, 99u, 100u, 101u, 150u, 300u, 5000u}) for (int which = 0; which < 3; which++) {
        std::vector<Rec> r = {a}; std::string lng(ln, 'n'), fs = "file [" + rstr(a) + "] with a " + (which == 0 ? "network name" : which == 1 ? "layer name" : "type") + " of " + std::to_string(ln) + " characters";
        FileBuf f = write_weights(r, which == 0 ? lng : "net", {which == 1 ? lng : "l0"}, salt++);
        std::string s = f.s; size_t end = s.find(lng);
        if (which == 2) for (auto &g : f.seg) if (g.kind == 't') { s.replace(g.off, g.len, std::string(a.type) + std::string(ln, 'n') + "\n"); end = s.find(lng); one("long type", r, s, g.off, ln, fs); break; }
        end += ln;
        for (size_t p : {end - ln, end - ln + 1, end - 2, end - 1, end, end + 1, s.size() - 1}) if (p < s.size()) one("cut", r, s.substr(0, p), p, 0, fs);
        std::string m = s; m.erase(end, 1); one("line feed missing", r, m, end, 0, fs);
        for (int b : {0, 120, 255}) { m = s; m[end] = (char) b; one("line feed replaced", r, m, end, b, fs); }
        for (size_t p : {end - ln, end - ln + 50, end - 1}) { m = s; m.insert(p, "\n"); one("line feed inserted", r, m, p, 0, fs); }
    }
    // files that cannot be read at all
    for (int k = 0; k < 5; k++) {
        if (!mc::take()) continue;
        std::string p = k == 0 ? mc::scratch + "/missing" : k == 1 ? mc::scratch : k == 2 ? mc::scratch + "/no/such/dir/file" : k == 3 ? "" : mc::scratch + "/" + std::string(5000, 'x');
        auto d = [&] { return "unreadable path: " + p.substr(0, 60); }; MC_CASE(d);
        Net n; net_for({al[0], al[3]}, n); n.done();
        int f0 = fds(); mc::heap_arm(); int rc = n.read(p.c_str()); long l = mc::heap_disarm(); mc::step(); mc::check();
        if (rc == 0) mc::fail("unreadable file reported as success"); else if (l || fds() != f0) mc::fail("leak");
        mc::outcome(k);
    }
}

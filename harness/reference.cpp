// I03: reference input/output files: exact load, damage refused.
#include "files.h"
MC_RULE("an evaluation is one read of one well-formed or damaged reference file into a tensor of one shape; distinct_nontrivial counts distinct file contents and resulting tensor contents; the verdict comes from an independent parser of the format");

struct Want { bool ok; std::vector<uint32_t> v; };
static Want model(const std::string &s, bool out, const Shape &t) {
    Want w; w.ok = false; w.v.assign(nelem(t), UNTOUCHED);
    std::vector<uint32_t> hdr;
    if (out) hdr = {1, nelem(t)};
    else hdr = {1, t.size() == 2 ? 1 : t[1], t.size() == 4 ? t[2] : t.size() == 3 ? 1 : t[0], t.size() == 4 ? t[3] : t.size() == 3 ? t[2] : t[1]};
    size_t p = 4;
    if (s.compare(0, 4, out ? "FCO\n" : "FCI\n") != 0) return w;
    for (auto h : hdr) { uint32_t x; if (p + 4 > s.size()) return w; memcpy(&x, &s[p], 4); if (x != h) return w; p += 4; }
    if (p + 4ull * w.v.size() > s.size()) return w;
    memcpy(w.v.data(), &s[p], 4ull * w.v.size()); p += 4ull * w.v.size();
    if (s.compare(p, 4, "end\n") != 0) return w;
    w.ok = true; return w;
}
static FileBuf build(bool out, const Shape &t, uint32_t salt) {
    FileBuf f; f.raw(out ? "FCO\n" : "FCI\n", 'm'); f.u32(1);
    if (out) f.u32(nelem(t));
    else { f.u32(t.size() == 2 ? 1 : t[1]); f.u32(t.size() == 4 ? t[2] : t.size() == 3 ? 1 : t[0]); f.u32(t.size() == 4 ? t[3] : t.size() == 3 ? t[2] : t[1]); }
    f.values(bits_vec(salt, nelem(t))); f.raw("end\n", 'e'); return f;
}
static void one(const char *what, bool out, const Shape &t, const std::string &bytes, size_t pos, uint32_t val) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + " at byte " + std::to_string(pos) + " (" + std::to_string(val) + "), " + (out ? "output" : "input") + " file for tensor " + str(t); }; MC_CASE(d);
    auto T = make(t); mark(T.get());
    std::string p = path_of("r"); put_file(p, bytes);
    Want w = model(bytes, out, t);
    Tensor *tp = T.get(); int f0 = fds();
    mc::heap_arm();
    int rc = out ? read_binary_reference_output_data(p.c_str(), &tp) : read_binary_reference_input_data(p.c_str(), &tp);
    long leak = mc::heap_disarm(); mc::step();
    if (tp != T.get()) { mc::fail("tensor replaced"); return; }
    if ((rc == 0) != w.ok) { mc::fail("reader returned " + std::to_string(rc) + " for a file that is " + (w.ok ? "well-formed" : "damaged")); return; }
    if (leak) { mc::fail("leaked " + std::to_string(leak) + " blocks"); return; }
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (w.ok) { for (uint32_t i = 0; i < w.v.size(); i++) if (get_bits(T.get(), i) != w.v[i]) { mc::fail("value " + std::to_string(i) + " is not the file's"); return; } mc::check(w.v.size()); mc::outcome(digest(T.get())); mc::count("accepted"); }
    else { mc::check(); mc::outcome(mc::hash_bytes(bytes.data(), bytes.size())); mc::count("refused"); }
}
void mc::explore() {
    std::vector<std::pair<bool, Shape>> ts, small;
    uint32_t m = mc::thorough ? 6 : 4;
    for (uint32_t c = 1; c <= m; c++) for (uint32_t h = 1; h <= m; h++) for (uint32_t w = 1; w <= m; w++) ts.push_back({false, {1, c, h, w}});
    for (uint32_t a = 1; a <= m; a++) for (uint32_t b = 1; b <= m; b++) { ts.push_back({false, {1, a, b}}); ts.push_back({false, {a, b}}); }
    for (uint32_t n = 1; n <= 64; n++) { ts.push_back({true, {1, n}}); if (n < 9) ts.push_back({true, {n, 2}}); ts.push_back({false, {1, n}}); ts.push_back({false, {n, 2}}); ts.push_back({false, {1, n, 2}}); ts.push_back({false, {1, 2, n}}); ts.push_back({false, {1, n, 2, 3}}); ts.push_back({false, {1, 2, n, 3}}); ts.push_back({false, {1, 2, 3, n}}); }
    for (uint32_t n : {1000u, 4096u, 10007u, 65537u}) { ts.push_back({true, {1, n}}); ts.push_back({false, {1, 2, 1, n}}); ts.push_back({false, {1, n, 1, 1}}); ts.push_back({false, {1, 1, n, 1}}); ts.push_back({false, {1, n}}); ts.push_back({false, {1, 2, n}}); }
    ts.push_back({false, {1, 2, 1030, 1025}}); ts.push_back({false, {1, 1, 1100000}}); ts.push_back({false, {1, 1100000}}); ts.push_back({false, {1, 1100000, 1, 1}}); ts.push_back({true, {1, 1100000}}); ts.push_back({false, {1, 3, 2049, 2048}}); ts.push_back({true, {1, 17000000}});
    uint32_t salt = 1;
    for (auto &t : ts) for (int k = 0; k < 2; k++) one("intact", t.first, t.second, build(t.first, t.second, salt++).s, 0, 0);
    small = {{false, {1, 2, 2, 3}}, {false, {1, 1, 1, 1}}, {false, {1, 3, 1, 2}}, {false, {1, 2, 3}}, {false, {1, 3, 1}}, {false, {2, 3}}, {false, {1, 4}}, {false, {3, 1}}, {true, {1, 1}}, {true, {1, 5}}, {true, {2, 2}}};
    for (auto &t : small) {
        FileBuf f = build(t.first, t.second, salt++);
        for (size_t p = 0; p < f.s.size(); p++) one("cut", t.first, t.second, f.s.substr(0, p), p, 0);
        for (auto &g : f.seg) {
            if (g.kind != 'v') for (size_t p = g.off; p < g.off + g.len; p++) for (int b = 0; b < 256; b++) if ((unsigned char) f.s[p] != b) { std::string x = f.s; x[p] = (char) b; one("byte replaced", t.first, t.second, x, p, b); }
            if (g.kind == 'c') { uint32_t old; memcpy(&old, &f.s[g.off], 4); for (uint32_t v : {0u, 1u, 2u, 3u, 4u, 6u, old + 1, old - 1, old * 2, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x40000000u + old}) if (v != old) { std::string x = f.s; memcpy(&x[g.off], &v, 4); one("count replaced", t.first, t.second, x, g.off, v); } }
            std::string x = f.s; x.erase(g.off, g.len); one("field missing", t.first, t.second, x, g.off, 0);
            x = f.s; x.insert(g.off, f.s.substr(g.off, g.len)); one("field doubled", t.first, t.second, x, g.off, 0);
        }
        std::vector<Seg> cs; for (auto &g : f.seg) if (g.kind == 'c') cs.push_back(g);
        for (size_t i = 0; i < cs.size(); i++) for (size_t j = i + 1; j < cs.size(); j++) for (uint32_t v = 0; v < 7; v++) for (uint32_t w = 0; w < 7; w++) { std::string x = f.s; memcpy(&x[cs[i].off], &v, 4); memcpy(&x[cs[j].off], &w, 4); one("two counts replaced", t.first, t.second, x, cs[i].off, v * 10 + w); }
        // the file of another tensor, of the other kind
        for (auto &o : small) { FileBuf g = build(o.first, o.second, salt++); one("other file", t.first, t.second, g.s, 0, 0); }
    }
    for (int out = 0; out < 2; out++) for (int k = 0; k < 4; k++) {
        if (!mc::take()) continue;
        std::string p = k == 0 ? mc::scratch + "/missing" : k == 1 ? mc::scratch : k == 2 ? mc::scratch + "/no/such/dir/file" : "";
        auto d = [&] { return "unreadable path: " + p; }; MC_CASE(d);
        auto T = make({1, 4}); Tensor *tp = T.get(); int f0 = fds();
        mc::heap_arm(); int rc = out ? read_binary_reference_output_data(p.c_str(), &tp) : read_binary_reference_input_data(p.c_str(), &tp); long l = mc::heap_disarm(); mc::step(); mc::check();
        if (rc == 0) mc::fail("unreadable file reported as success"); else if (l || fds() != f0) mc::fail("leak");
        mc::outcome(k);
    }
}

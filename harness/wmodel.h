// Reference model of the binary weights format: writer, and a parser deciding what a reader must do with any bytes.
#pragma once
#include "files.h"

struct Rec { char kind; Shape k; int kmode; std::vector<uint32_t> b; const char *type; };
// kind 'C' conv (k = out,in,h,w; rank3 when kmode & 2), 'G' gemm-like (k = h,w), 'B' batch norm (b = 4 counts), 'A' add (b = 1 count)
// kmode & 1: kernel present (else shared, all zero)
inline std::string rstr(const Rec &r) {
    std::string s = r.type; if (r.kind == 'C' || r.kind == 'G') { s += (r.kmode & 1) ? str(r.k) : "(shared)"; if (r.kmode & 2) s += "1d"; }
    s += "["; for (auto x : r.b) s += std::to_string(x) + " "; s += "]"; return s;
}
inline Shape kshape(const Rec &r) { return r.kind == 'C' && (r.kmode & 2) ? Shape{r.k[0], r.k[1], r.k[3]} : r.k; }

inline FileBuf write_weights(const std::vector<Rec> &recs, const std::string &net, const std::vector<std::string> &names, uint32_t salt) {
    FileBuf f; f.raw("FD\n", 'm'); f.raw(net + "\n", 'n'); f.u32(recs.size());
    uint32_t s = salt;
    for (size_t i = 0; i < recs.size(); i++) {
        const Rec &r = recs[i];
        f.raw(names[i] + "\n", 'n'); f.raw(std::string(r.type) + "\n", 't');
        if (r.kind == 'C') { for (auto d : r.k) f.u32((r.kmode & 1) ? d : 0); if (r.kmode & 1) f.values(bits_vec(s++, nelem(r.k))); }
        if (r.kind == 'G') { f.u32((r.kmode & 1) ? 1 : 0); for (auto d : r.k) f.u32((r.kmode & 1) ? d : 0); if (r.kmode & 1) f.values(bits_vec(s++, nelem(r.k))); }
        for (auto n : r.b) { f.u32(n); if (n) f.values(bits_vec(s++, n)); }
    }
    f.raw("end\n", 'e');
    return f;
}

struct Net {                                      // the tensors of a network
    std::vector<TP> k, b; std::vector<Tensor *> kp, bp; std::vector<Shape> ks, bs;
    void add_k(const Shape &s) { k.push_back(make(s)); ks.push_back(s); }
    void add_b(const Shape &s) { b.push_back(make(s)); bs.push_back(s); }
    void done() { kp.clear(); bp.clear(); for (auto &t : k) { mark(t.get()); kp.push_back(t.get()); } for (auto &t : b) { mark(t.get()); bp.push_back(t.get()); } kp.push_back(nullptr); bp.push_back(nullptr); }
    int read(const char *path) { Tensor **ka = kp.data(), **ba = bp.data(); return read_binary_weights(path, &ka, &ba); }
};
inline void net_for(const std::vector<Rec> &recs, Net &n, int bias_rank = 1) {
    for (auto &r : recs) {
        if ((r.kind == 'C' || r.kind == 'G') && (r.kmode & 1)) n.add_k(kshape(r));
        for (auto c : r.b) if (c) n.add_b(bias_rank == 1 || (bias_rank > 2 && r.kind != 'A') ? Shape{c} : bias_rank == 2 ? Shape{1, c} : bias_rank == 3 ? Shape{1, c, 1} : c % 2 ? Shape{1, 1, c, 1} : Shape{1, 2, 1, c / 2});   // addends may have any rank
    }
}

// What a correct reader does with these bytes: success, and the values each tensor holds afterwards.
// `any`: the format does not say (a half-zero shared marker, an embedded NUL in a type name): either answer is right, contents not compared.
struct Verdict { bool ok; bool any = false; std::vector<std::vector<uint32_t>> k, b; };
inline Verdict model_read(const std::string &s, const Net &net) {
    Verdict v; v.ok = false;
    for (auto &t : net.k) v.k.push_back(std::vector<uint32_t>(t->num_elements(), UNTOUCHED));
    for (auto &t : net.b) v.b.push_back(std::vector<uint32_t>(t->num_elements(), UNTOUCHED));
    size_t p = 0, ki = 0, bi = 0;
    auto u32 = [&](uint32_t &x) { if (p + 4 > s.size()) return false; memcpy(&x, &s[p], 4); p += 4; return true; };
    auto line = [&](std::string &l) { size_t q = s.find('\n', p); if (q == std::string::npos) return false; l = s.substr(p, q - p); p = q + 1; return true; };
    auto vals = [&](std::vector<uint32_t> &dst, uint64_t n) { if (p + 4 * n > s.size()) return false; memcpy(dst.data(), &s[p], 4 * n); p += 4 * n; return true; };
    auto bias = [&]() { uint32_t n; if (!u32(n)) return false; if (!n) return true; if (bi >= net.b.size() || nelem(net.bs[bi]) != n) return false; return vals(v.b[bi++], n); };
    std::string l;
    if (s.compare(0, 3, "FD\n") != 0) return v;
    p = 3;
    uint32_t layers;
    if (!line(l) || !u32(layers)) return v;
    for (uint32_t i = 0; i < layers; i++) {
        std::string t;
        if (!line(l) || !line(t)) return v;
        if (size_t z = t.find('\0'); z != std::string::npos) { t.resize(z); v.any = true; }
        if (t == "Conv") {
            uint32_t d[4]; for (auto &x : d) if (!u32(x)) return v;
            int nz = !!d[0] + !!d[1] + !!d[2] + !!d[3];
            if (nz != 0 && nz != 4) v.any = true;
            if (nz == 4) {
                if (ki >= net.k.size()) return v;
                const Shape &sh = net.ks[ki];
                bool fit = sh.size() == 4 ? sh == Shape{d[0], d[1], d[2], d[3]} : sh.size() == 3 && d[2] == 1 && sh == Shape{d[0], d[1], d[3]};
                if (!fit) return v;
                if (!vals(v.k[ki++], (uint64_t) d[0] * d[1] * d[2] * d[3])) return v;
            }
            if (!bias()) return v;
        } else if (t == "Gemm" || t == "MatMul" || t == "Transpose") {
            uint32_t n, h, w; if (!u32(n) || !u32(h) || !u32(w)) return v;
            if (n > 1) return v;
            if (!!n + !!h + !!w != 0 && !(n && h && w)) v.any = true;
            if (n && h && w) {
                if (ki >= net.k.size() || nelem(net.ks[ki]) != (uint64_t) h * w) return v;
                if (!vals(v.k[ki++], (uint64_t) h * w)) return v;
            }
            if (!bias()) return v;
        } else if (t == "BatchNormalization") { for (int q = 0; q < 4; q++) if (!bias()) return v; }
        else if (t == "Add") { if (!bias()) return v; }
        else return v;
    }
    if (s.compare(p, 4, "end\n") != 0) return v;
    v.ok = true; return v;
}

// Reads `bytes` with the library and compares with the model. Contents are compared only for accepted files.
inline void check_read(const std::string &bytes, Net &net, const std::string &path) {
    put_file(path, bytes);
    net.done();
    Verdict want = model_read(bytes, net);
    int f0 = fds();
    mc::heap_arm();
    int rc = net.read(path.c_str());
    long leak = mc::heap_disarm();
    mc::step();
    if (want.any) { if (leak || fds() != f0) mc::fail("leaked memory or a file"); mc::check(); mc::count("unspecified"); return; }
    if ((rc == 0) != want.ok) { mc::fail("reader returned " + std::to_string(rc) + " for a file that is " + (want.ok ? "well-formed" : "damaged")); return; }
    if (leak) { mc::fail("leaked " + std::to_string(leak) + " heap blocks (return code " + std::to_string(rc) + ")"); return; }
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (want.ok) {
        for (size_t i = 0; i < net.k.size(); i++) for (uint32_t j = 0; j < want.k[i].size(); j++)
            if (get_bits(net.k[i].get(), j) != want.k[i][j]) { mc::fail("kernel " + std::to_string(i) + " value " + std::to_string(j) + " is not the file's"); return; }
        for (size_t i = 0; i < net.b.size(); i++) for (uint32_t j = 0; j < want.b[i].size(); j++)
            if (get_bits(net.b[i].get(), j) != want.b[i][j]) { mc::fail("bias " + std::to_string(i) + " value " + std::to_string(j) + " is not the file's"); return; }
        uint64_t h = 1; for (auto &t : net.k) { h = h * 31 + digest(t.get()); mc::check(t->num_elements()); } for (auto &t : net.b) { h = h * 31 + digest(t.get()); mc::check(t->num_elements()); }
        mc::outcome(h); mc::count("accepted");
    } else { mc::check(); mc::outcome(mc::hash_bytes(bytes.data(), bytes.size())); mc::count("refused"); }
}

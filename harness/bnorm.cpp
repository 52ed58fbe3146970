// L07: batch normalization.
#include "pc.h"
MC_RULE("one case per (rank, channels, extents, epsilon, parameter pattern) where the pattern assigns gamma/beta/mean/variance per channel from a product of small value sets; non-trivial = distinct output digests");
static const float eps_[] = {0.f, 1e-5f, 1e-3f, 0.5f, 2.f, 1e-12f};
static const float gs[] = {1, -2, 0, 0.5f}, bs[] = {0, 3, -1.5f}, ms[] = {0, 2, -4}, vs[] = {1, 0.25f, 4, 0.0001f, 9, 1e-12f, 1e-25f};
static void one(const Shape &s, int e, uint32_t pat) {
    if (!mc::take()) return;
    auto d = [&] { return "batchnorm in=" + str(s) + " eps=" + std::to_string(eps_[e]) + " pattern=" + std::to_string(pat); };
    MC_CASE(d);
    uint32_t C = s[1], sp = 1; for (size_t i = 2; i < s.size(); i++) sp *= s[i];
    TP in = make(s), out = make(s); Tensor g(C), b(C), m(C), v(C);
    fill(in.get(), 81); fill_const(out.get(), GARBAGE);
    for (uint32_t c = 0; c < C; c++) { uint32_t q = pat + 37 * c; g.access_blob(c) = gs[q % 4]; b.access_blob(c) = bs[q / 4 % 3]; m.access_blob(c) = ms[q / 12 % 3]; v.access_blob(c) = vs[q / 36 % 7]; }
    auto sg = snap(&g), sb = snap(&b), sm = snap(&m), sv = snap(&v), si = snap(in.get());
    naive::BatchNormalization l("b", 0, op_type::BatchNormalization, &g, &b, &m, &v, eps_[e]);
    std::vector<double> ref;
    for (uint32_t c = 0; c < C; c++) for (uint32_t i = 0; i < sp; i++) ref.push_back((double) sg[c] * ((double) si[c * sp + i] - sm[c]) / std::sqrt((double) sv[c] + eps_[e]) + sb[c]);
    for (int round = 0; round < 2; round++) {
        l.run(in.get(), out.get()); mc::step();
        if (!expect_close(out.get(), ref, 2e-5, 2e-5)) return;
    }
    if (!same_bits(&g, sg) || !same_bits(&b, sb) || !same_bits(&m, sm) || !same_bits(&v, sv)) { mc::fail("a parameter tensor was modified"); return; }
    mc::outcome(digest(out.get()));
    // in place
    TP io = make(s); for (uint32_t i = 0; i < si.size(); i++) io->access_blob(i) = si[i];
    l.run(io.get(), io.get()); mc::step();
    if (!expect_close(io.get(), ref, 2e-5, 2e-5, "in-place output")) return;
    uint32_t at = (pat * 5 + e) % ref.size(); in->access_blob(at) = NAN; ref[at] = NAN;
    l.run(in.get(), out.get()); mc::step();
    expect_apart(out.get(), ref, 2e-5, 2e-5);
}
void mc::explore() {
    uint32_t E = mc::thorough ? 5 : 3;
    for (uint32_t C = 1; C <= 4; C++) for (int e = 0; e < 6; e++) for (uint32_t pat = 0; pat < 252; pat++) {
        for (uint32_t H = 1; H <= E; H++) for (uint32_t W = 1; W <= E; W++) one({1, C, H, W}, e, pat);
        for (uint32_t W = 1; W <= (mc::thorough ? 9u : 5u); W++) one({1, C, W}, e, pat);
    }
    for (uint32_t L = 4; L <= (mc::thorough ? 300u : 150u); L++) for (uint32_t pat : {L * 7 % 180, L * 11 % 180}) {
        one({1, L, 1, 2}, L % 5, pat); one({1, L, 2}, L % 5, pat); one({1, 2, L, 2}, L % 5, pat); one({1, 3, 2, L}, L % 5, pat); one({1, 2, L}, L % 5, pat);
    }
    for (uint32_t q : {14u, 56u, 65u}) for (int e = 0; e < 5; e++) one({1, 3, q, q}, e, q);
    // element counts and extents beyond 16 bits
    for (uint32_t pat : {31u, 77u}) { one({1, 66000, 1, 1}, 2, pat); one({1, 66000, 2}, 2, pat); one({1, 2, 65540, 1}, 2, pat); one({1, 2, 1, 65540}, 2, pat); one({1, 2, 65540}, 2, pat); one({1, 2, 257, 256}, 2, pat); one({1, 300, 16, 16}, 2, pat); }
}

// L10: local response normalization.
#include "pc.h"
MC_RULE("one case per (batches, channels, extents, window size, alpha, beta, data pattern); non-trivial = distinct output digests");
static const float as[] = {0.0001f, 1.f, 3.f, 0.f}, be[] = {0.75f, 0.5f, 1.f, 0.f, 2.f};
static void one(const Shape &s, uint32_t n, int a, int b, int pat) {
    if (!mc::take()) return;
    auto d = [&] { std::ostringstream o; o << "lrn in=" << str(s) << " size=" << n << " alpha=" << as[a] << " beta=" << be[b] << " pattern=" << pat; return o.str(); };
    MC_CASE(d);
    TP in = make(s), out = make(s); fill(in.get(), 91 + pat, pat == 1 ? 40 : 4); if (pat == 2) { static const float m[] = {0.01f, 1, 1, 1000, 1e6f}; for (uint32_t i = 0; i < in->num_elements(); i++) in->access_blob(i) *= m[(uint32_t) (val(99, i, 500) + 500) % 5]; } if (pat == 3) in->access_blob((n * 5 + a * 3 + b) % in->num_elements()) = NAN; fill_const(out.get(), GARBAGE);
    uint32_t C = s[1], sp = s[2] * s[3];
    naive::LRN l("l", 0, op_type::LRN, as[a], be[b], (uint16_t) n);
    l.run(in.get(), out.get()); mc::step();
    std::vector<double> ref;
    for (uint32_t B = 0; B < s[0]; B++) for (int c = 0; c < (int) C; c++) for (uint32_t i = 0; i < sp; i++) {
        int lo = std::max(0, c - (int) (n / 2)), hi = std::min((int) C - 1, c + (int) (n / 2));
        double S = 0; for (int k = lo; k <= hi; k++) { double x = in->access_blob((B * C + k) * sp + i); S += x * x; }
        ref.push_back(in->access_blob((B * C + c) * sp + i) / std::pow(1 + as[a] / (double) n * S, (double) be[b]));
    }
    if (pat == 3) { if (expect_apart(out.get(), ref, 1e-5, 1e-6)) mc::outcome(digest(out.get())); return; }
    if (expect_close(out.get(), ref, 1e-5, 1e-6)) mc::outcome(digest(out.get()));
}
void mc::explore() {
    uint32_t CM = mc::thorough ? 9 : 7, E = mc::thorough ? 3 : 2;
    for (uint32_t B = 1; B <= 2; B++) for (uint32_t C = 1; C <= CM; C++) for (uint32_t H = 1; H <= E; H++) for (uint32_t W = 1; W <= E; W++)
        for (uint32_t n = 1; n <= CM + 3; n++) for (int a = 0; a < 4; a++) for (int b = 0; b < 5; b++) for (int p = 0; p < 4; p++) one({B, C, H, W}, n, a, b, p);
    for (uint32_t L = 4; L <= (mc::thorough ? 200u : 100u); L++) for (int p = 0; p < 3; p++) {
        for (uint32_t n : {1u, 2u, 3u, 5u, 8u}) one({1, L, 1, 2}, n, 1, L % 5, p);
        one({1, 3, L, 1}, 3, 0, 0, p); one({1, 4, 2, L}, 5, 1, 1, p); one({L, 3, 1, 2}, 3, 1, 0, p); one({1, 9, 2, 2}, L, 2, 0, p); one({1, L, 1, 1}, L, 2, 2, p); one({1, L, 1, 1}, 2 * L, 2, 2, p);
    }
    for (uint32_t n : {255u, 256u, 257u, 1000u, 65535u}) one({1, 5, 2, 2}, n, 1, 0, 1);
    for (uint32_t q : {27u, 55u}) one({1, 6, q, q}, 5, 0, 0, 1);
    // element counts and extents beyond 16 bits
    for (uint32_t n : {2u, 5u}) { one({1, 66000, 1, 1}, n, 1, 0, 1); one({66000, 2, 1, 1}, n, 1, 0, 1); one({1, 3, 65540, 1}, n, 1, 0, 1); one({1, 3, 1, 65540}, n, 1, 0, 1); one({1, 2, 257, 256}, n, 1, 0, 1); one({3, 300, 9, 9}, n, 1, 0, 1); }
    one({1, 300, 1, 1}, 65535, 1, 0, 1); one({1, 33000, 1, 1}, 257, 1, 0, 1);
}

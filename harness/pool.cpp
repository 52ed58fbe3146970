// L03 (max) / L04 (average): every small pooling configuration against the definition. -DAVG selects average.
#include "pc.h"
MC_RULE("one case per (rank, batches, channels, extents, window, stride, padding, mode, data pattern) run on the real layer with a dirty output; data patterns include all-negative, mixed and all-positive data with the extremum at varying positions; non-trivial = distinct output digests");
#ifdef AVG
static const bool avg = true;
#else
static const bool avg = false;
#endif

struct P { uint32_t rank, B, C, H, W, kh, kw, sh, sw; bool nullpad; uint32_t pt, pl, pb, pr; bool incl; int pat; };
static const char *pats[] = {"mixed", "negative", "positive", "big-negative", "extreme", "tiny", "one NaN"};
#include <cfloat>
static const float extreme[] = {-INFINITY, -FLT_MAX, -3.38e38f, -FLT_MIN, -0x1p-149f, 0, FLT_MAX, INFINITY, -1e30f, -INFINITY, -INFINITY};

static void one(const P &p) {
    uint32_t PH = p.H + p.pt + p.pb, PW = p.W + p.pl + p.pr;
    if (PH < p.kh || PW < p.kw) return;
    // every window must contain at least one real element (a window made of padding only has no defined result)
    if (p.pt >= p.kh || p.pb >= p.kh || p.pl >= p.kw || p.pr >= p.kw) return;
    if (!mc::take()) return;
    auto d = [&] {
        std::ostringstream o;
        o << (avg ? "avgpool" : "maxpool") << (p.rank == 4 ? "2d" : "1d") << " in=(" << p.B << "," << p.C << ",";
        if (p.rank == 4) o << p.H << ",";
        o << p.W << ") kernel=" << p.kh << "x" << p.kw << " stride=" << p.sh << "," << p.sw << " pads=" << (p.nullpad ? std::string("none") : str({p.pt, p.pl, p.pb, p.pr}));
        if (avg) o << " count_include_pad=" << p.incl;
        o << " data=" << pats[p.pat];
        return o.str();
    };
    MC_CASE(d);
    uint32_t OH = (PH - p.kh) / p.sh + 1, OW = (PW - p.kw) / p.sw + 1;
    Shape is = p.rank == 4 ? Shape{p.B, p.C, p.H, p.W} : Shape{p.B, p.C, p.W};
    Shape os = p.rank == 4 ? Shape{p.B, p.C, OH, OW} : Shape{p.B, p.C, OW};
    TP in = make(is), out = make(os);
    for (uint32_t i = 0; i < in->num_elements(); i++) {
        float v = val(31 + p.pat, i, 60) * 0.25f;
        if (p.pat == 1) v = -std::fabs(v);
        if (p.pat == 2) v = std::fabs(v);
        if (p.pat == 3) v = -std::fabs(v) * 65536.f - 3e7f * (avg ? 0 : 1) * (i % 3 == 0);
        // at and beyond the largest floats (max: windows of nothing but infinities occur), and subnormal
        if (p.pat == 4) { uint32_t h = (uint32_t) val(77, i, 5000) + 5000; v = avg ? v * 0x1p100f : (i / 7) % 3 == 0 ? extreme[h % 11] : (i / 7) % 3 == 1 ? -INFINITY : extreme[h % 5]; }
        if (p.pat == 5) v *= 0x1p-130f;
        in->access_blob(i) = v;
    }
    if (p.pat == 6) in->access_blob((p.H * 7 + p.W * 5 + p.kh * 3 + p.kw + p.sw) % in->num_elements()) = NAN;
    fill_const(out.get(), GARBAGE);
    uint32_t pad4[4] = {p.pt, p.pl, p.pb, p.pr}, pad3[4] = {p.pl, p.pr, 77, 77};
    uint32_t k4[2] = {p.kh, p.kw}, k3[2] = {p.kw, 77}, s4[2] = {p.sh, p.sw}, s3[2] = {p.sw, 77};
    uint32_t *pad = p.nullpad ? nullptr : (p.rank == 4 ? pad4 : pad3), *k = p.rank == 4 ? k4 : k3, *s = p.rank == 4 ? s4 : s3;
#ifdef AVG
    naive::AveragePooling pool("p", 0, op_type::AveragePool, k, s, pad, p.incl);
#else
    naive::MaxPooling pool("p", 0, op_type::MaxPool, k, s, pad);
#endif
    pool.run(in.get(), out.get()); mc::step();
    std::vector<double> ref;
    for (uint32_t b = 0; b < p.B; b++) for (uint32_t c = 0; c < p.C; c++) for (uint32_t y = 0; y < OH; y++) for (uint32_t x = 0; x < OW; x++) {
        double m = -INFINITY, sum = 0; int n = 0;
        for (uint32_t r = 0; r < p.kh; r++) for (uint32_t q = 0; q < p.kw; q++) {
            int64_t yy = (int64_t) y * p.sh + r - p.pt, xx = (int64_t) x * p.sw + q - p.pl;
            if (yy < 0 || xx < 0 || yy >= p.H || xx >= p.W) continue;
            double v = in->access_blob(((b * p.C + c) * p.H + yy) * p.W + xx);
            if (v > m || v != v) m = v;
            if (m != m) sum = m;
            sum += v; n++;
        }
        ref.push_back(avg ? sum / (p.incl ? p.kh * p.kw : n) : m);
    }
    if (p.pat == 6) { if (expect_apart(out.get(), ref, avg ? 1e-6 : 0, avg ? 1e-6 : 0)) mc::outcome(digest(out.get())); return; }
    if (avg ? expect_close(out.get(), ref, 1e-6, p.pat == 5 ? 0x1p-148 : 1e-6) : expect_exact(out.get(), ref)) mc::outcome(digest(out.get()));
}

void mc::explore() {
    int NP = 4;
    uint32_t incls = avg ? 2 : 1;
    uint32_t E = mc::thorough ? 6 : 5, K = mc::thorough ? 4 : 3, S = mc::thorough ? 4 : 3, PM = 2;
    // 2-D: all extents x windows x strides, no padding; rotating batch/channel set-up
    struct BC { uint32_t b, c; } bcs[] = {{1,1},{1,3},{2,2}};
    for (uint32_t incl = 0; incl < incls; incl++)
    for (auto bc : bcs) for (uint32_t H = 1; H <= E; H++) for (uint32_t W = 1; W <= E; W++) for (uint32_t kh = 1; kh <= K; kh++) for (uint32_t kw = 1; kw <= K; kw++)
        for (uint32_t sh = 1; sh <= S; sh++) for (uint32_t sw = 1; sw <= S; sw++) for (int pat = 0; pat < 2; pat++)
            one({4, bc.b, bc.c, H, W, kh, kw, sh, sw, true, 0, 0, 0, 0, (bool) incl, pat});
    // 2-D: full padding cross product
    uint32_t E2 = mc::thorough ? 4 : 3;
    for (uint32_t incl = 0; incl < incls; incl++)
    for (uint32_t H = 1; H <= E2; H++) for (uint32_t W = 1; W <= E2; W++) for (uint32_t kh = 1; kh <= K; kh++) for (uint32_t kw = 1; kw <= K; kw++)
        for (uint32_t sh = 1; sh <= S; sh++) for (uint32_t sw = 1; sw <= S; sw++)
        for (uint32_t pt = 0; pt <= PM && pt < kh; pt++) for (uint32_t pl = 0; pl <= PM && pl < kw; pl++) for (uint32_t pb = 0; pb <= PM && pb < kh; pb++) for (uint32_t pr = 0; pr <= PM && pr < kw; pr++)
            for (int pat = 0; pat < (mc::thorough ? NP : 2); pat++) { int q = mc::thorough ? pat : (pat == 0 ? (int) ((pt + pl + H) & 1 ? 0 : 3) : 1); for (uint32_t B = 1; B <= 2; B++) one({4, B, 1 + (B + H + W) % 2, H, W, kh, kw, sh, sw, false, pt, pl, pb, pr, (bool) incl, q}); }
    // 2-D larger windows
    for (uint32_t incl = 0; incl < incls; incl++)
    for (uint32_t k : {3u, 5u, 7u, 8u}) for (uint32_t k2 : {2u, 5u, 9u}) for (uint32_t H : {9u, 14u}) for (uint32_t W : {11u, 16u}) for (uint32_t s : {1u, 2u, 3u, 5u})
        for (uint32_t pa = 0; pa <= 4; pa++) for (uint32_t pb = 0; pb <= 4; pb += 2) for (int pat = 0; pat < NP; pat++)
            one({4, 1, 2, H, W, k, k2, s, s, false, std::min(pa, k - 1), std::min(pb, k2 - 1), std::min(pb, k - 1), std::min(pa, k2 - 1), (bool) incl, pat});
    // extreme and tiny values, a NaN among the others
    for (uint32_t incl = 0; incl < incls; incl++) for (int pat = 4; pat < 7; pat++) {
        for (uint32_t H = 1; H <= 5; H++) for (uint32_t W = 1; W <= 5; W++) for (uint32_t kh = 1; kh <= 3; kh++) for (uint32_t kw = 1; kw <= 3; kw++) for (uint32_t s = 1; s <= 2; s++) {
            one({4, 1, 3, H, W, kh, kw, s, 3 - s, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 2, 2, H, W, kh, kw, s, s, false, kh - 1, kw - 1, kh - 1, kw - 1, (bool) incl, pat}); one({4, 1, 3, H, W, kh, kw, 1, 1, false, 0, kw - 1, kh - 1, 0, (bool) incl, pat});
        }
        for (uint32_t W = 1; W <= 12; W++) for (uint32_t k = 1; k <= 4; k++) for (uint32_t s = 1; s <= 3; s++) { one({3, 2, 3, 1, W, 1, k, 1, s, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, 1, 5, 1, W, 1, k, 1, s, false, 0, k - 1, 0, k - 1, (bool) incl, pat}); }
    }
    // 1-D: everything
    uint32_t N = mc::thorough ? 14 : 9, K1 = mc::thorough ? 7 : 5, S1 = mc::thorough ? 6 : 4;
    for (uint32_t incl = 0; incl < incls; incl++)
    for (auto bc : bcs) for (uint32_t W = 1; W <= N; W++) for (uint32_t k = 1; k <= K1; k++) for (uint32_t s = 1; s <= S1; s++) for (int pat = 0; pat < NP; pat++) {
        one({3, bc.b, bc.c, 1, W, 1, k, 1, s, true, 0, 0, 0, 0, (bool) incl, pat});
        for (uint32_t pl = 0; pl < k; pl++) for (uint32_t pr = 0; pr < k; pr++) one({3, bc.b, bc.c, 1, W, 1, k, 1, s, false, 0, pl, 0, pr, (bool) incl, pat});
    }
    // one quantity at a time far beyond the small ranges
    for (uint32_t incl = 0; incl < incls; incl++) for (uint32_t L = 6; L <= (mc::thorough ? 270u : 140u); L++) for (int pat = 0; pat < 3; pat++) {
        for (uint32_t k = 2; k <= 3; k++) for (uint32_t s = 1; s <= 3; s++) {
            one({4, 1, 1, L, 4, k, 2, s, 1, false, k - 1, 1, 0, 0, (bool) incl, pat}); one({4, 1, 2, 4, L, 2, k, 1, s, false, 0, 0, 1, k - 1, (bool) incl, pat}); one({4, 1, 1, 5, L, 3, k, 2, s, true, 0, 0, 0, 0, (bool) incl, pat});
            one({3, 1, 2, 1, L, 1, k, 1, s, false, 0, k - 1, 0, 1, (bool) incl, pat}); one({3, 2, 1, 1, L, 1, k, 1, s, true, 0, 0, 0, 0, (bool) incl, pat});
        }
        one({4, 1, L, 3, 4, 2, 2, 1, 2, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, L, 2, 3, 3, 3, 2, 1, 1, false, 1, 1, 1, 0, (bool) incl, pat}); one({3, 1, L, 1, 5, 1, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, L, 2, 1, 5, 1, 3, 1, 2, false, 0, 1, 0, 2, (bool) incl, pat});
        if (L <= 40) {                                              // large windows, strides and paddings
            one({4, 1, 1, 41, 5, L, 2, 3, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 1, 1, 5, 41, 2, L, 1, 3, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 1, 2, 45, 4, 2, 2, L, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 1, 2, 4, 45, 2, 2, 1, L, true, 0, 0, 0, 0, (bool) incl, pat});
            one({4, 1, 1, L, L, L, L, 1, 1, false, L - 1, L - 1, L - 1, L - 1, (bool) incl, pat}); one({4, 1, 1, 4, 5, L, 2, 2, 1, false, L - 1, 1, L - 1, 0, (bool) incl, pat}); one({4, 1, 1, 4, 5, 2, L, 1, 2, false, 1, L - 1, 0, L - 1, (bool) incl, pat});
            one({3, 1, 1, 1, 41, 1, L, 1, 2, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, 1, 2, 1, 50, 1, 3, 1, L, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, 1, 1, 1, 6, 1, L, 1, 1, false, 0, L - 1, 0, L - 1, (bool) incl, pat});
        }
    }
    // element counts and extents beyond 16 bits
    for (uint32_t incl = 0; incl < incls; incl++) for (int pat = 0; pat < 3; pat++) {
        one({4, 1, 1, 257, 258, 2, 3, 1, 1, false, 1, 1, 0, 2, (bool) incl, pat}); one({4, 1, 2, 65540, 1, 3, 1, 2, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 1, 1, 2, 65540, 2, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 300, 300, 1, 2, 1, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat});
        one({4, 1, 66000, 1, 2, 1, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 66000, 1, 2, 1, 2, 1, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat});
        one({4, 1, 1, 260, 260, 258, 257, 1, 2, true, 0, 0, 0, 0, (bool) incl, pat}); one({4, 1, 1, 2, 3, 300, 300, 100, 99, false, 299, 299, 299, 299, (bool) incl, pat}); one({4, 1, 1, 700, 2, 2, 2, 300, 1, true, 0, 0, 0, 0, (bool) incl, pat});
        one({3, 1, 2, 1, 65540, 1, 3, 1, 2, false, 0, 1, 0, 2, (bool) incl, pat}); one({3, 66000, 1, 1, 3, 1, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, 1, 66000, 1, 3, 1, 2, 1, 1, true, 0, 0, 0, 0, (bool) incl, pat}); one({3, 1, 1, 1, 66000, 1, 65600, 1, 100, true, 0, 0, 0, 0, (bool) incl, pat});
        // windows whose share of real elements is beyond 8, 15 and 16 bits, at the border
        one({4, 1, 1, 20, 17, 19, 16, 1, 1, false, 1, 2, 1, 1, (bool) incl, pat}); one({4, 1, 1, 200, 203, 199, 200, 1, 2, false, 1, 2, 3, 0, (bool) incl, pat}); one({4, 1, 1, 260, 262, 259, 260, 2, 1, false, 2, 1, 1, 1, (bool) incl, pat}); one({3, 1, 1, 1, 300, 1, 290, 1, 3, false, 0, 2, 0, 4, (bool) incl, pat}); one({3, 1, 1, 1, 33000, 1, 32990, 1, 3, false, 0, 2, 0, 4, (bool) incl, pat}); one({3, 1, 1, 1, 66000, 1, 65990, 1, 3, false, 0, 2, 0, 4, (bool) incl, pat});
    }
}

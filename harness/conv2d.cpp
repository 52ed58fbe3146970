// L01: every small 2-D convolution against the ONNX definition.
#include "pc.h"
MC_RULE("one case per (channels/groups, extents, kernel, stride, padding, bias); executed four times on the real layer with different data (dense, scaled, sparse, one NaN) and a dirty output; non-trivial = distinct output digests");
struct Ch { uint32_t cin, cout, g; };

static void one(Ch c, uint32_t H, uint32_t W, uint32_t kh, uint32_t kw, uint32_t sh, uint32_t sw, bool nullpad,
                uint32_t pt, uint32_t pl, uint32_t pb, uint32_t pr, bool bias) {
    uint32_t PH = H + pt + pb, PW = W + pl + pr;
    if (PH < kh || PW < kw) return;
    if (!mc::take()) return;
    auto d = [&] {
        std::ostringstream o;
        o << "conv2d in=(1," << c.cin << "," << H << "," << W << ") out_channels=" << c.cout << " groups=" << c.g << " kernel=" << kh << "x" << kw
          << " stride=" << sh << "," << sw << " pads=" << (nullpad ? std::string("none") : str({pt, pl, pb, pr})) << " bias=" << bias;
        return o.str();
    };
    MC_CASE(d);
    uint32_t OH = (PH - kh) / sh + 1, OW = (PW - kw) / sw + 1, cpg = c.cin / c.g, opg = c.cout / c.g;
    Tensor in(1, c.cin, H, W), k(c.cout, cpg, kh, kw), b(c.cout), out(1, c.cout, OH, OW);
    fill(&k, 11); fill(&b, 12, 90);
    uint32_t pad[4] = {pt, pl, pb, pr}, str_[2] = {sh, sw};
    auto conv = std::make_unique<naive::Convolution>("c", 0, op_type::Conv, &k, bias ? &b : nullptr, nullpad ? nullptr : pad, str_, c.g);
    for (int round = 0; round < (k.num_elements() + in.num_elements() < 3000 ? 4 : 2); round++) {
        fill(&in, 13 + round);
        if (round && !bias) for (uint32_t i = 0; i < in.num_elements(); i++) in.access_blob(i) *= (H + W) & 1 ? 0x1p30f : -0x1p-30f;    // far from the usual magnitudes, still exact
        if (round == 2) {                              // sparse: planes of nothing but zeros among others, zero inputs and biases
            uint32_t plane = k.num_elements() / (c.cout * cpg), n = in.num_elements() / c.cin;
            for (uint32_t i = 0; i < k.num_elements(); i++) if (val(31, i / plane, 2) > 0) k.access_blob(i) = 0;
            for (uint32_t i = 0; i < in.num_elements(); i++) if (val(32, i, 3) > 1 || val(33, i / n, 4) > 3) in.access_blob(i) = 0;
            b.access_blob(0) = 0;
            conv = std::make_unique<naive::Convolution>("c", 0, op_type::Conv, &k, bias ? &b : nullptr, nullpad ? nullptr : pad, str_, c.g);
            fill_const(&out, GARBAGE);
        }
        if (round == 3) in.access_blob((H * 7 + W * 5 + kh * 3 + kw + sw) % in.num_elements()) = NAN;
        if (round == 0) fill_const(&out, GARBAGE);     // second round: output still holds the first result
        conv->run(&in, &out); mc::step();
        std::vector<double> ref; ref.reserve(c.cout * OH * OW);
        for (uint32_t o = 0; o < c.cout; o++)
            for (uint32_t y = 0; y < OH; y++)
                for (uint32_t x = 0; x < OW; x++) {
                    double s = bias ? b.access_blob(o) : 0;
                    for (uint32_t i = 0; i < cpg; i++) {
                        uint32_t ic = (o / opg) * cpg + i;
                        for (uint32_t r = 0; r < kh; r++)
                            for (uint32_t q = 0; q < kw; q++) {
                                int64_t yy = (int64_t) y * sh + r - pt, xx = (int64_t) x * sw + q - pl;
                                if (yy < 0 || xx < 0 || yy >= H || xx >= W) continue;
                                s += (double) k.access_blob(((o * cpg + i) * kh + r) * kw + q) * in.access_blob((ic * H + yy) * W + xx);
                            }
                    }
                    ref.push_back(s);
                }
        if (round == 3 ? !expect_apart(&out, ref) : !expect_exact(&out, ref)) return;
        mc::outcome(digest(&out));
    }
}

void mc::explore() {
    std::vector<Ch> chs = {{1,1,1},{1,2,1},{2,1,1},{2,2,1},{3,2,1},{2,2,2},{4,2,2},{2,4,2},{4,4,2},{3,3,3},{3,6,3},{6,3,3}};
    if (mc::thorough) { chs.push_back({1,3,1}); chs.push_back({5,3,1}); chs.push_back({4,8,4}); chs.push_back({8,4,4}); chs.push_back({6,4,2}); chs.push_back({4,4,4}); chs.push_back({6,6,2}); chs.push_back({9,3,3}); }
    uint32_t ks[] = {1, 3, 5};
    // 1. full padding cross product, all kernels, for a few channel set-ups, small extents
    uint32_t N = mc::thorough ? 5 : 4, S = mc::thorough ? 3 : 2, PM = 2;
    for (auto c : std::vector<Ch>{{1,1,1},{2,2,1},{4,2,2}})
        for (uint32_t H = 1; H <= N; H++) for (uint32_t W = 1; W <= N; W++)
        for (uint32_t kh : ks) for (uint32_t kw : ks) for (uint32_t sh = 1; sh <= S; sh++) for (uint32_t sw = 1; sw <= S; sw++)
        for (uint32_t pt = 0; pt <= PM; pt++) for (uint32_t pl = 0; pl <= PM; pl++) for (uint32_t pb = 0; pb <= PM; pb++) for (uint32_t pr = 0; pr <= PM; pr++) {
            if (pt >= kh + 1 || pb >= kh + 1 || pl >= kw + 1 || pr >= kw + 1) continue;
            one(c, H, W, kh, kw, sh, sw, false, pt, pl, pb, pr, (pt + pl + pb + pr + H) & 1);
        }
    // 2. every channel/group set-up with every stride pair (remainders), with and without bias, no/asymmetric padding
    uint32_t E = mc::thorough ? 7 : 6, S2 = mc::thorough ? 4 : 3;
    for (auto c : chs) for (uint32_t H = 1; H <= E; H++) for (uint32_t W = 1; W <= E; W++)
        for (uint32_t kh : ks) for (uint32_t kw : ks) for (uint32_t sh = 1; sh <= S2; sh++) for (uint32_t sw = 1; sw <= S2; sw++)
        for (int bias = 0; bias < 2; bias++) {
            one(c, H, W, kh, kw, sh, sw, true, 0, 0, 0, 0, bias);
            one(c, H, W, kh, kw, sh, sw, false, 0, 1, 2, 0, bias);
            if (mc::thorough) { one(c, H, W, kh, kw, sh, sw, false, 1, 0, 0, 2, bias); one(c, H, W, kh, kw, sh, sw, false, 0, 0, 0, 0, bias); }
        }
    // 3. larger kernels and extents
    for (auto c : std::vector<Ch>{{1,1,1},{2,3,1},{2,2,2}})
        for (uint32_t k1 : {1u, 7u, 9u, 11u}) for (uint32_t k2 : {1u, 7u, 9u, 11u})
        for (uint32_t H : {7u, 12u, 16u}) for (uint32_t W : {8u, 11u, 17u}) for (uint32_t s : {1u, 2u, 4u, 5u})
        for (uint32_t p : {0u, 3u, 5u}) one(c, H, W, k1, k2, s, s == 2 ? 1 : s, p == 0, p, p, p, p, p & 1);
    // 4. one quantity at a time far beyond the small ranges: extents, channels, groups, stride, padding
    for (uint32_t L = 6; L <= (mc::thorough ? 270u : 140u); L++) {
        for (uint32_t k : {1u, 3u, 5u}) for (uint32_t s = 1; s <= 3; s++) {
            one({1,2,1}, L, 3, k, 3, s, 1, false, k / 2, 1, k / 2, 1, L & 1); one({2,1,1}, 5, L, 3, k, 1, s, false, 1, k / 2, 0, k / 2, s & 1);
            one({1,1,1}, 5, L, 5, k, 2, s, true, 0, 0, 0, 0, s & 1); one({2,2,2}, L, 5, k, 5, s, 2, true, 0, 0, 0, 0, L & 1);
        }
        for (uint32_t k : {1u, 3u}) {
            one({L,2,1}, 3, 4, k, k, 1, 1, false, 1, 1, 1, 1, L & 1); one({2,L,1}, 4, 3, k, 3, 1, 2, true, 0, 0, 0, 0, true); one({L,L,L}, 3, 3, k, 3, 1, 1, false, 1, 0, 1, 0, L & 1);
            one({L,2 * L,L}, 3, 3, 3, k, 1, 1, true, 0, 0, 0, 0, true); one({2 * L,L,L}, 3, 3, 1, k, 1, 1, true, 0, 0, 0, 0, false); one({2 * L,4,2}, 3, 3, k, k, 2, 1, false, 0, 1, 1, 0, true); one({4,2 * L,2}, 3, 4, k, k, 1, 1, true, 0, 0, 0, 0, true);
        }
        if (L <= 40) for (uint32_t k : {1u, 3u}) { one({1,2,1}, 50, 4, k, 1, L, 1, true, 0, 0, 0, 0, true); one({1,2,1}, 4, 50, 1, k, 1, L, true, 0, 0, 0, 0, true); for (int q = 0; q < 4; q++) one({2,1,1}, 4, 5, 3, k, 1 + q % 2, 1, false, q == 0 ? L : 1, q == 1 ? L : 0, q == 2 ? L : 0, q == 3 ? L : 1, q & 1); }
    }
    for (uint32_t L : {32u, 56u, 64u, 112u, 127u, 128u, 129u}) for (uint32_t k : {1u, 3u, 7u}) one({3,4,1}, L, L, k, k, k == 7 ? 2 : 1, k == 7 ? 2 : 1, k == 1, k / 2, k / 2, k / 2, k / 2, true);
    // odd kernels of every size up to 15
    for (uint32_t k1 = 1; k1 <= 15; k1 += 2) for (uint32_t k2 = 1; k2 <= 15; k2 += 2) for (uint32_t s = 1; s <= 3; s++) { uint32_t f = s != 1; one({2,2,1}, 16, 17, k1, k2, s, 4 - s, !f, f * (k1 / 2), f * (k2 / 2), f * (k1 / 2), f * (k2 / 2), s & 1); }
    // element counts and extents beyond 16 bits
    for (uint32_t k : {1u, 3u}) { uint32_t p = k / 2; one({1,1,1}, 257, 257, k, k, 1, 1, false, p, p, p, p, true); one({2,1,1}, 65537, 1, k, 1, 1, 1, false, p, 0, p, 0, true); one({1,2,1}, 1, 65537, 1, k, 1, 1, false, 0, p, 0, p, true); one({1,1,1}, 3, 3, k, k, 1, 1, false, 300, 300, 300, 300, true); }
    one({66000,1,1}, 1, 1, 1, 1, 1, 1, true, 0, 0, 0, 0, true); one({1,66000,1}, 1, 1, 1, 1, 1, 1, true, 0, 0, 0, 0, true); one({300,300,300}, 16, 16, 1, 1, 1, 1, true, 0, 0, 0, 0, true); one({260,260,1}, 2, 1, 1, 1, 1, 1, true, 0, 0, 0, 0, true); one({1,1,1}, 301, 299, 257, 259, 3, 2, true, 0, 0, 0, 0, false); one({1,1,1}, 700, 3, 1, 1, 300, 1, true, 0, 0, 0, 0, true);
    one({66000,66000,66000}, 1, 1, 1, 1, 1, 1, true, 0, 0, 0, 0, true);
    for (uint32_t k : {65537u, 131073u}) { one({1,1,1}, k + 2, 1, k, 1, 1, 1, true, 0, 0, 0, 0, true); one({1,1,1}, 1, k + 2, 1, k, 1, 1, true, 0, 0, 0, 0, true); }
}

// L02: every small 1-D convolution against the ONNX definition.
#include "pc.h"
MC_RULE("one case per (channels/groups, width, kernel, stride, padding, bias); executed four times on the real layer with different data (dense, scaled, sparse, one NaN) and a dirty output; non-trivial = distinct output digests");
struct Ch { uint32_t cin, cout, g; };

static void one(Ch c, uint32_t W, uint32_t kw, uint32_t sw, bool nullpad, uint32_t pl, uint32_t pr, bool bias) {
    uint32_t PW = W + pl + pr;
    if (PW < kw) return;
    if (!mc::take()) return;
    auto d = [&] {
        std::ostringstream o;
        o << "conv1d in=(1," << c.cin << "," << W << ") out_channels=" << c.cout << " groups=" << c.g << " kernel=" << kw
          << " stride=" << sw << " pads=" << (nullpad ? std::string("none") : str({pl, pr})) << " bias=" << bias;
        return o.str();
    };
    MC_CASE(d);
    uint32_t OW = (PW - kw) / sw + 1, cpg = c.cin / c.g, opg = c.cout / c.g;
    Tensor in(1, c.cin, W), k(c.cout, cpg, kw), b(c.cout), out(1, c.cout, OW);
    fill(&k, 21); fill(&b, 22, 90);
    uint32_t pad[4] = {pl, pr, 99, 99}, str_[2] = {sw, 99};
    auto conv = std::make_unique<naive::Convolution>("c", 0, op_type::Conv, &k, bias ? &b : nullptr, nullpad ? nullptr : pad, str_, c.g);
    for (int round = 0; round < (k.num_elements() + in.num_elements() < 3000 ? 4 : 2); round++) {
        fill(&in, 23 + round);
        if (round && !bias) for (uint32_t i = 0; i < in.num_elements(); i++) in.access_blob(i) *= W & 1 ? 0x1p30f : -0x1p-30f;
        if (round == 2) {                              // sparse: planes of nothing but zeros among others, zero inputs and biases
            uint32_t plane = k.num_elements() / (c.cout * cpg), n = in.num_elements() / c.cin;
            for (uint32_t i = 0; i < k.num_elements(); i++) if (val(31, i / plane, 2) > 0) k.access_blob(i) = 0;
            for (uint32_t i = 0; i < in.num_elements(); i++) if (val(32, i, 3) > 1 || val(33, i / n, 4) > 3) in.access_blob(i) = 0;
            b.access_blob(0) = 0;
            conv = std::make_unique<naive::Convolution>("c", 0, op_type::Conv, &k, bias ? &b : nullptr, nullpad ? nullptr : pad, str_, c.g);
            fill_const(&out, GARBAGE);
        }
        if (round == 3) in.access_blob((W * 5 + kw * 3 + sw) % in.num_elements()) = NAN;
        if (round == 0) fill_const(&out, GARBAGE);
        conv->run(&in, &out); mc::step();
        std::vector<double> ref;
        for (uint32_t o = 0; o < c.cout; o++)
            for (uint32_t x = 0; x < OW; x++) {
                double s = bias ? b.access_blob(o) : 0;
                for (uint32_t i = 0; i < cpg; i++) {
                    uint32_t ic = (o / opg) * cpg + i;
                    for (uint32_t q = 0; q < kw; q++) {
                        int64_t xx = (int64_t) x * sw + q - pl;
                        if (xx < 0 || xx >= W) continue;
                        s += (double) k.access_blob((o * cpg + i) * kw + q) * in.access_blob(ic * W + xx);
                    }
                }
                ref.push_back(s);
            }
        if (round == 3 ? !expect_apart(&out, ref) : !expect_exact(&out, ref)) return;
        mc::outcome(digest(&out));
    }
}

void mc::explore() {
    std::vector<Ch> chs = {{1,1,1},{1,2,1},{2,1,1},{2,2,1},{3,2,1},{2,2,2},{4,2,2},{2,4,2},{4,4,2},{3,3,3},{3,6,3},{6,3,3},{1,3,1},{5,3,1},{4,8,4},{8,4,4},{6,4,2},{4,4,4},{6,6,2},{9,3,3}};
    uint32_t N = mc::thorough ? 24 : 12, S = mc::thorough ? 7 : 5;
    for (auto c : chs) for (uint32_t W = 1; W <= N; W++) for (uint32_t k = 1; k <= (mc::thorough ? 11u : 7u); k += 2)
        for (uint32_t s = 1; s <= S; s++) for (int bias = 0; bias < 2; bias++) {
            one(c, W, k, s, true, 0, 0, bias);
            for (uint32_t pl = 0; pl <= std::min(k, 4u); pl++) for (uint32_t pr = 0; pr <= std::min(k, 4u); pr++) one(c, W, k, s, false, pl, pr, bias);
        }
    // one quantity at a time far beyond the small ranges
    for (uint32_t L = 8; L <= (mc::thorough ? 400u : 200u); L++) {
        for (uint32_t k : {1u, 3u, 5u, 7u, 9u, 11u}) for (uint32_t s = 1; s <= 4; s++) { one({1,2,1}, L, k, s, true, 0, 0, s & 1); one({2,1,1}, L, k, s, false, k / 2, k / 2, L & 1); one({2,2,2}, L, k, s, false, 0, k - 1, true); }
        for (uint32_t k : {1u, 3u}) { one({L,2,1}, 5, k, 1, true, 0, 0, true); one({2,L,1}, 5, k, 2, false, 1, 1, true); one({L,L,L}, 4, k, 1, false, 1, 0, L & 1); one({L,2 * L,L}, 4, k, 1, true, 0, 0, true); one({2 * L,4,2}, 4, k, 1, true, 0, 0, true); one({4,2 * L,2}, 4, k, 1, true, 0, 0, false); }
        if (L <= 60) { one({1,2,1}, 70, 3, L, true, 0, 0, true); one({2,1,1}, 5, 3, 2, false, L, 1, true); one({2,1,1}, 5, 3, 1, false, 0, L, true); one({1,2,1}, 70, L | 1, 1, false, 2, 1, true); }
    }
    // element counts and extents beyond 16 bits
    for (uint32_t k : {1u, 3u}) { one({1,2,1}, 65540, k, 1, true, 0, 0, true); one({2,1,1}, 65600, k, 2, false, k / 2, k / 2, true); one({300,300,300}, 260, k, 1, false, 0, k - 1, true); one({1,1,1}, 3, k, 1, false, 66000, 70000, true); }
    one({66000,1,1}, 2, 1, 1, true, 0, 0, true); one({1,66000,1}, 2, 1, 1, true, 0, 0, true); one({260,260,1}, 3, 1, 1, true, 0, 0, true); one({1,1,1}, 70001, 65537, 700, true, 0, 0, true); one({66000,66000,66000}, 1, 1, 1, true, 0, 0, true); one({1,1,1}, 131077, 131073, 2, true, 0, 0, true); one({1,1,1}, 140000, 3, 66000, true, 0, 0, true);
}

// L06: fully connected and MatMul, on a basis of (weight, input) space and on dense data.
#include "pc.h"
MC_RULE("one case per (operator, X, Y, bias, probe); probes are every single-weight/single-input unit pair, every dense valuation, and scaled columns; non-trivial = distinct output digests");
static void one(bool mm, uint32_t X, uint32_t Y, bool bias, int probe) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(mm ? "matmul" : "fc") + " X=" + std::to_string(X) + " Y=" + std::to_string(Y) + " bias=" + std::to_string(bias) + " probe=" + std::to_string(probe); };
    MC_CASE(d);
    TP w = mm ? make({X, Y}) : make({Y, X});
    Tensor in(1, X), b(Y), out(1, Y);
    fill_const(&out, GARBAGE);
    if (probe < 0) { fill(w.get(), 50 - probe); fill(&in, 60 - probe); fill(&b, 70 - probe, 80); if (probe <= -5) { float f = probe == -5 ? 0x1p40f : 0x1p-40f; for (uint32_t j = 0; j < X; j++) in.access_blob(j) *= f; for (uint32_t j = 0; j < Y; j++) b.access_blob(j) *= f; } if (probe == -3) for (uint32_t j = 0; j < X; j++) in.access_blob(j) *= (j % 2 ? 0 : 1); }
    else {                                         // unit impulse in the weights, dense input, and bias ramp
        w->access_blob(probe) = 1; fill(&in, 61); for (uint32_t i = 0; i < Y; i++) b.access_blob(i) = 1000 + i;
    }
    std::vector<double> ref;
    for (uint32_t i = 0; i < Y; i++) { double s = bias ? b.access_blob(i) : 0; for (uint32_t j = 0; j < X; j++) s += (double) in.access_blob(j) * (mm ? w->access_blob(j * Y + i) : w->access_blob(i * X + j)); ref.push_back(s); }
    if (mm) { naive::MatMul l("m", 0, op_type::MatMul, w.get()); l.run(&in, &out); }
    else { naive::FullyConnected l("f", 0, op_type::Gemm, w.get(), bias ? &b : nullptr); l.run(&in, &out); }
    mc::step();
    if (expect_exact(&out, ref)) mc::outcome(digest(&out));
}
void mc::explore() {
    uint32_t N = mc::thorough ? 20 : 12;
    for (int mm = 0; mm < 2; mm++) for (uint32_t X = 1; X <= N; X++) for (uint32_t Y = 1; Y <= N; Y++) for (int bias = 0; bias < (mm ? 1 : 2); bias++)
        for (int probe = -6; probe < (int) (X * Y); probe++) one(mm, X, Y, bias, probe);
    // every size on a wider ladder with dense data (loop unrolling / blocking boundaries)
    for (int mm = 0; mm < 2; mm++) for (uint32_t X = 1; X <= (mc::thorough ? 270u : 140u); X++) for (uint32_t Y : {1u, 2u, 3u, 4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 33u, 64u, 65u}) for (int bias = 0; bias < (mm ? 1 : 2); bias++)
        { one(mm, X, Y, bias, -1); one(mm, Y, X, bias, -2); }
    for (int mm = 0; mm < 2; mm++) for (uint32_t L : {255u, 256u, 257u, 400u, 500u, 1000u, 1024u, 1025u, 4096u}) for (uint32_t M : {1u, 2u, 10u, 120u}) { one(mm, L, M, !mm, -1); one(mm, M, L, !mm, -4); }
    // element counts and extents beyond 16 bits
    for (int mm = 0; mm < 2; mm++) { one(mm, 65540, 2, !mm, -1); one(mm, 2, 65540, !mm, -1); one(mm, 300, 300, !mm, -2); }
}

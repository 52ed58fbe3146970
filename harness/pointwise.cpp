// L08 part 1: every 32-bit float value through every pointwise activation (compiled without sanitizers for speed).
// Part 2 (-DPOS): every position of every small tensor, all ranks, in place, with guarded memory.
#include "pc.h"
enum Op { RELU, LEAKY, PRELU, CLIP, SIGMOID, TANH, IDENT };
static const char *names[] = {"relu", "leaky_relu", "param_relu", "clip", "sigmoid", "tanh", "identity"};
struct Cfg { Op op; float a, b; };
static const float INF = INFINITY;
static const Cfg cfgs[] = {{RELU, 0, 0}, {LEAKY, 0.01f, 0}, {LEAKY, 1.f / 3, 0}, {LEAKY, 0, 0}, {LEAKY, -1.5f, 0}, {LEAKY, 3e30f, 0}, {PRELU, 0.25f, 0}, {PRELU, -7.7f, 0}, {PRELU, 0, 0},
    {CLIP, 0, 6}, {CLIP, -1, 1}, {CLIP, -3.4028235e38f, 3.4028235e38f}, {CLIP, -INF, INF}, {CLIP, 2.5f, 2.5f}, {CLIP, 0, INF}, {CLIP, -1e-40f, 1e-40f}, {SIGMOID, 0, 0}, {TANH, 0, 0}};
static std::string cname(const Cfg &c) { return std::string(names[c.op]) + "(" + fstr(c.a) + "," + fstr(c.b) + ")"; }
static void run(const Cfg &c, Tensor *in, Tensor *out, Tensor *slope) {
    switch (c.op) {
        case RELU: { naive::ReLU l("r", 0, op_type::ReLU); l.run(in, out); break; }
        case LEAKY: { naive::LeakyReLU l("r", 0, op_type::LeakyReLU, c.a); l.run(in, out); break; }
        case PRELU: { naive::ParameterizedReLU l("r", 0, op_type::ParamReLU, slope); l.run(in, out); break; }
        case CLIP: { naive::Clip l("r", 0, op_type::Clip, c.a, c.b); l.run(in, out); break; }
        case SIGMOID: { naive::Sigmoid l("r", 0, op_type::Sigmoid); l.run(in, out); break; }
        case TANH: { naive::TanH l("r", 0, op_type::TanH); l.run(in, out); break; }
        default: { naive::ActivationFunction l("r", 0, op_type::Unknown); l.run(in, out); }
    }
    mc::step();
}
static inline float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
// true when y is an acceptable value of op at x
static inline bool good(const Cfg &c, float x, float s, float y) {
    if (x != x) return true;                                  // NaN input: the definition gives no value
    switch (c.op) {
        case RELU: return y == (x < 0 ? 0.f : x);
        case LEAKY: { float e = x < 0 ? c.a * x : x; return y == e || (e != e && y != y); }
        case PRELU: { float e = x < 0 ? s * x : x; return y == e || (e != e && y != y); }
        case CLIP: return y == (x < c.a ? c.a : x > c.b ? c.b : x);
        case SIGMOID: { double r = 1 / (1 + std::exp(-(double) x)); return std::fabs(y - r) <= 2e-6 * r + 1.2e-38 && y >= 0 && y <= 1; }
        case TANH: { double r = std::tanh((double) x); return std::fabs(y - r) <= 2e-6 * std::fabs(r) + 3e-45 && y >= -1 && y <= 1; }
        default: return fbits(y) == fbits(x);
    }
}
#ifndef POS
MC_RULE("one case per (activation, parameters, block of 2^18 consecutive bit patterns); all 2^32 bit patterns of a float are executed on the real layer and compared one by one; states are distinct output digests");
void mc::explore() {
    const uint32_t N = 1u << 18;
    Tensor in(N), out(N), slope(N);
    for (auto &c : cfgs) for (uint32_t blk = 0; blk < (1u << 14); blk++) {
        // identical parameters only differ in simple comparisons: the quick tier runs one parameter set per
        // activation over all 2^32 values and the others over every block boundary region
        bool primary = &c == cfgs || c.op != (&c)[-1].op;
        if (!mc::thorough && !primary && (blk & 15) != 0 && (blk & 15) != 15) continue;
        if (!mc::take()) continue;
        auto d = [&] { char b[64]; snprintf(b, sizeof b, " bit patterns 0x%08x..0x%08x", blk * N, blk * N + N - 1); return cname(c) + b; };
        MC_CASE(d);
        for (uint32_t i = 0; i < N; i++) in.data_[i] = bitsf(blk * N + i);
        if (c.op == PRELU) fill_const(&slope, c.a);
        run(c, &in, &out, &slope);
        for (uint32_t i = 0; i < N; i++) if (!good(c, bitsf(blk * N + i), c.a, out.data_[i])) { mc::fail(cname(c) + " of " + fstr(bitsf(blk * N + i)) + " gives " + fstr(out.data_[i])); break; }
        mc::check(N);
        mc::outcome(mc::hash_bytes(out.data_, 4 * 4096));
    }
}
#else
MC_RULE("one case per (activation, parameters, shape): every element holds its own value (and slope), separately into a dirty output and in place; rotating the values over the positions; states are distinct output digests");
static const float vals[] = {-INF, -3.4028235e38f, -100.f, -6.5f, -1.f, -0.3f, -1e-39f, -0.f, 0.f, 1e-45f, 0.1f, 0.9f, 1.f, 2.5f, 5.9f, 6.f, 6.1f, 90.f, 3.4028235e38f, INF};
void mc::explore() {
    std::vector<Shape> shapes;
    for (uint32_t a = 1; a <= 80; a++) shapes.push_back({a});
    for (uint32_t a = 1; a <= 6; a++) for (uint32_t b = 1; b <= 20; b++) shapes.push_back({a, b});
    for (uint32_t a = 1; a <= 3; a++) for (uint32_t b = 1; b <= 4; b++) for (uint32_t c = 1; c <= 5; c++) { shapes.push_back({a, b, c}); for (uint32_t e = 1; e <= 4; e++) shapes.push_back({a, b, c, e}); }
    for (uint32_t L : {127u, 128u, 129u, 255u, 257u, 1000u, 1025u, 4099u}) { shapes.push_back({L}); shapes.push_back({2, L}); shapes.push_back({1, 2, L}); shapes.push_back({1, L, 1, 2}); }
    std::vector<Cfg> cs(cfgs, cfgs + sizeof cfgs / sizeof *cfgs); cs.push_back({IDENT, 0, 0});
    for (auto &c : cs) for (auto &s : shapes) for (uint32_t rot = 0; rot < (mc::thorough ? 20u : 5u); rot++) for (int inplace = 0; inplace < 2; inplace++) {
        if (!mc::take()) continue;
        auto d = [&] { return cname(c) + " " + str(s) + " rotation " + std::to_string(rot) + (inplace ? " in place" : ""); };
        MC_CASE(d);
        TP in = make(s), out = make(s), slope = make(s);
        uint32_t n = in->num_elements();
        for (uint32_t i = 0; i < n; i++) { in->access_blob(i) = vals[(i * 7 + i / 20 + rot) % 20]; slope->access_blob(i) = c.a + i; }
        fill_const(out.get(), GARBAGE);
        auto si = snap(in.get()), ss = snap(slope.get());
        Tensor *o = inplace ? in.get() : out.get();
        run(c, in.get(), o, slope.get());
        for (uint32_t i = 0; i < n; i++) if (!good(c, si[i], ss[i], o->access_blob(i))) { mc::fail(cname(c) + " of element " + std::to_string(i) + " = " + fstr(si[i]) + " gives " + fstr(o->access_blob(i))); break; }
        if (!inplace && !same_bits(in.get(), si)) mc::fail("input changed");
        if (!same_bits(slope.get(), ss)) mc::fail("slope changed");
        mc::check(n); mc::outcome(digest(o));
    }
    // a slope tensor that does not match the input is refused, never read out of bounds
    for (uint32_t a = 1; a <= 6; a++) for (uint32_t b = 1; b <= 6; b++) for (int r = 0; r < 2; r++) {
        if (a == b && !r) continue;
        if (!mc::take()) continue;
        auto d = [&] { return "param_relu with a slope of another shape: " + std::to_string(a) + " vs " + std::to_string(b) + " form " + std::to_string(r); };
        MC_CASE(d);
        int rc = mc::isolated([&] {
            TP in = r ? make({1, a}) : make({a}), out = r ? make({1, a}) : make({a}), sl = make({b}); fill_const(in.get(), -1); fill_const(out.get(), GARBAGE);
            naive::ParameterizedReLU l("r", 0, op_type::ParamReLU, sl.get()); l.run(in.get(), out.get()); return 7;
        });
        mc::step(); mc::check();
        if (rc != 1) mc::fail("mismatching slope is not refused with exit code 1 but ends with " + std::to_string(rc));
    }
}
#endif

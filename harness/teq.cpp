// T04: tensor equality.
#include "pc.h"
MC_RULE("one case per ordered pair of shapes (equal contents as far as both reach), and per (shape, differing position, size of the difference, magnitude of the data); verdict compared with the definition in both argument orders; states are distinct (pair, verdict) digests");
static bool eq(const Tensor &a, const Tensor &b) { mc::step(); mc::check(); return a == b; }
static void shapes(const Shape &p, const Shape &q) {
    if (!mc::take()) return;
    auto d = [&] { return "shapes " + str(p) + " == " + str(q); };
    MC_CASE(d);
    TP a = make(p), b = make(q); fill_const(a.get(), 2.5f); fill_const(b.get(), 2.5f);
    bool want = p == q, got = eq(*a, *b), got2 = eq(*b, *a);
    if (got != want) return mc::fail(std::string("operator== says ") + (got ? "equal" : "different"));
    if (got2 != want) return mc::fail(std::string("operator== with swapped arguments says ") + (got2 ? "equal" : "different"));
    mc::outcome(mc::mix(want + 2 * mc::hash_bytes(p.data(), p.size() * 4) + 5 * mc::hash_bytes(q.data(), q.size() * 4)));
}
static const float deltas[] = {0.f, 0.00002f, 0.00009f, 0.00012f, 0.001f, 0.5f, 1000.f, 1e30f};
static const int MAGS[] = {3, 5, 7, 9, 10, 11, 13, 16, 20, 23, 40, 100};
static void elem(const Shape &s, uint32_t pos, int di, bool neg, int kind) {
    if (!mc::take()) return;
    auto d = [&] { return "elements " + str(s) + " position " + std::to_string(pos) + " delta " + (neg ? "-" : "") + fstr(deltas[di]) + " kind=" + std::to_string(kind); };
    MC_CASE(d);
    TP a = make(s), b = make(s);
    // kind 0: zeros, 1: small values around zero, 2: every other element also off by less than the tolerance, alternating in sign
    for (uint32_t i = 0; i < a->num_elements(); i++) {
        float v = kind == 0 ? 0 : kind < 3 ? val(9, i, 8) / 16.f : (i % 3 == 1 ? -1 : 1) * std::ldexp(1.f, kind) * (kind < 30 ? 1 + i % 4 / 4.f : 1);      // from kind 3 on: magnitude 2^kind
        a->access_blob(i) = v; b->access_blob(i) = kind == 2 ? v + 0.00005f * (i % 2 ? 1 : -1) : v;
    }
    float x = a->access_blob(pos);
    b->access_blob(pos) = neg ? x - deltas[di] : x + deltas[di];
    bool want = std::fabs((double) b->access_blob(pos) - x) < 0.0001;
    auto sa = snap(a.get()), sb = snap(b.get());
    bool g1 = eq(*a, *b), g2 = eq(*b, *a), g3 = eq(*a, *a);
    if (g1 != want || g2 != want) return mc::fail(std::string("operator== says ") + (g1 ? "equal" : "different") + "/" + (g2 ? "equal" : "different") + " for a difference of " + fstr(b->access_blob(pos) - x));
    if (!g3) return mc::fail("a tensor differs from itself");
    if (!same_bits(a.get(), sa) || !same_bits(b.get(), sb)) return mc::fail("comparison changed a tensor");
    mc::outcome(mc::mix(mc::hash_bytes(sb.data(), sb.size() * 4) * 2 + want));
}
static void ulp(const Shape &s, uint32_t pos, int mag, int ulps) {
    if (!mc::take()) return;
    auto d = [&] { return "ulps " + str(s) + " position " + std::to_string(pos) + " magnitude 2^" + std::to_string(mag) + " ulps " + std::to_string(ulps); };
    MC_CASE(d);
    TP a = make(s), b = make(s);
    for (uint32_t i = 0; i < a->num_elements(); i++) { float v = (i % 3 == 1 ? -1 : 1) * std::ldexp(1 + i % 4 / 4.f, mag); a->access_blob(i) = v; b->access_blob(i) = v; }
    float x = a->access_blob(pos), y = x; for (int k = 0; k < std::abs(ulps); k++) y = std::nextafterf(y, ulps > 0 ? INFINITY : -INFINITY);
    b->access_blob(pos) = y;
    double diff = std::fabs((double) y - x); bool want = diff < 0.0001;
    if (std::fabs(diff - 0.0001) < 1e-6) return;                    // on the edge of the tolerance itself
    bool g1 = eq(*a, *b), g2 = eq(*b, *a);
    if (g1 != want || g2 != want) return mc::fail(std::string("operator== says ") + (g1 ? "equal" : "different") + "/" + (g2 ? "equal" : "different") + " for a difference of " + fstr((float) diff) + " at " + fstr(x));
    mc::outcome(mc::mix(digest(b.get()) * 2 + want));
}
// Not a number and infinities: close to nothing else. Equal infinities are left out.
static void special(const Shape &s, uint32_t pos, int i, int j, int kind) {
    static const float V[] = {NAN, -NAN, INFINITY, -INFINITY, 0, 1, 3.4e38f, -3.4e38f, 1e-42f};
    if (i > 3 && j > 3) return;
    if (i == j && (i == 2 || i == 3)) return;
    if (!mc::take()) return;
    auto d = [&] { return "special values " + str(s) + " position " + std::to_string(pos) + " " + fstr(V[i]) + " and " + fstr(V[j]) + " kind=" + std::to_string(kind); };
    MC_CASE(d);
    TP a = make(s), b = make(s);
    for (uint32_t k = 0; k < a->num_elements(); k++) { float v = kind ? val(9, k, 8) / 16.f : 0; a->access_blob(k) = v; b->access_blob(k) = v; }
    if (kind == 2 && a->num_elements() > 1) { uint32_t o = pos ? 0 : 1; a->access_blob(o) = V[j]; b->access_blob(o) = V[i]; }      // two differences, in opposite directions
    a->access_blob(pos) = V[i]; b->access_blob(pos) = V[j];
    bool g1 = eq(*a, *b), g2 = eq(*b, *a);
    if (g1 || g2) return mc::fail(std::string("operator== says equal for ") + fstr(V[i]) + " and " + fstr(V[j]));
    mc::outcome(mc::mix(i * 100 + j * 10 + kind + pos * 1000));
}
void mc::explore() {
    for (auto &s : std::vector<Shape>{{1}, {5}, {1, 1}, {3, 2}, {1, 4}, {1, 2, 3}, {1, 2, 2, 2}, {1, 1, 17, 17}}) for (uint32_t p = 0; p < nelem(s); p++) for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int k = 0; k < 3; k++) special(s, p, i, j, k);
    std::vector<Shape> all;
    uint32_t E = mc::thorough ? 4 : 3;
    for (uint32_t a = 1; a <= E; a++) { all.push_back({a}); for (uint32_t b = 1; b <= E; b++) { all.push_back({a, b}); for (uint32_t c = 1; c <= E; c++) { all.push_back({a, b, c}); for (uint32_t e = 1; e <= E; e++) all.push_back({a, b, c, e}); } } }
    for (uint32_t n : {4u, 5u, 6u, 8u, 9u, 12u, 16u, 18u, 24u, 27u, 54u}) { all.push_back({n}); all.push_back({1, n}); all.push_back({n, 1}); all.push_back({2, n}); all.push_back({1, 1, n}); all.push_back({1, 1, 1, n}); all.push_back({n, 1, 1, 1}); }
    for (auto &p : all) for (auto &q : all) shapes(p, q);
    std::vector<Shape> es = {{1}, {2}, {5}, {1, 1}, {1, 4}, {3, 2}, {2, 1, 3}, {1, 3, 2}, {2, 2, 2}, {1, 1, 1, 1}, {1, 2, 2, 2}, {2, 1, 2, 3}, {2, 3, 1, 2}, {3, 2, 2, 1}, {70}, {2, 33}, {1, 5, 13}, {1, 2, 5, 7}, {1, 1, 17, 17}, {1025}};
    for (auto &s : es) { uint32_t n = nelem(s); for (uint32_t p = 0; p < n; p++) for (int di = 0; di < 8; di++) for (int neg = 0; neg < 2; neg++) for (int k = 0; k < 3; k++) elem(s, p, di, neg, k); }
    // data of every magnitude (the tolerance is absolute), differing by one or several units in the last place
    for (auto &s : std::vector<Shape>{{1}, {3}, {2, 2}, {1, 2, 3}, {1, 2, 2, 1}}) { uint32_t n = nelem(s); for (uint32_t p = 0; p < n; p++) for (int m : MAGS) for (int ulps : {0, 1, 2, 3, 7, 64, 1000}) for (int neg = 0; neg < 2; neg++) ulp(s, p, m, neg ? -ulps : ulps); }
    for (auto &s : std::vector<Shape>{{65537}, {257, 256}, {1, 66000, 1}, {1, 1, 257, 257}}) for (uint32_t p : {0u, 1u, 32768u, 65535u, 65536u}) if (p < nelem(s)) for (int di : {0, 1, 3, 5}) elem(s, p, di, false, 1);
}

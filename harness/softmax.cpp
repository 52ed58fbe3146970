// L09: softmax over every short vector of a value set, and structured long vectors of every rank.
#include "pc.h"
MC_RULE("one case per vector (all vectors of the value set up to the stated length, plus long patterns), rank and in-place mode; checks value, range, sum, order, and invariance under adding a constant; states are distinct output digests");
static const float V[] = {-3.4028235e38f, -1e4f, -104.f, -89.f, -1.f, -0.f, 1e-30f, 0.5f, 1.f, 2.f, 88.f, 89.f, 710.f, 1e4f, 1.2e4f, 3.4028235e38f};
static void one(const std::vector<float> &x, const Shape &s, bool inplace, const char *tag) {
    if (!mc::take()) return;
    auto d = [&] { std::ostringstream o; o << "softmax " << tag << " shape=" << str(s) << (inplace ? " in place" : "") << " ["; for (size_t i = 0; i < x.size() && i < 8; i++) o << (i ? "," : "") << x[i]; o << (x.size() > 8 ? ",...]" : "]"); return o.str(); };
    MC_CASE(d);
    size_t n = x.size();
    TP in = make(s), out = make(s); for (size_t i = 0; i < n; i++) in->access_blob(i) = x[i];
    fill_const(out.get(), GARBAGE);
    Tensor *o = inplace ? in.get() : out.get();
    naive::Softmax l("s", 0, op_type::Softmax); l.run(in.get(), o); mc::step();
    long double m = -INFINITY, sum = 0; for (float v : x) m = std::max(m, (long double) v);
    for (float v : x) sum += expl(v - m);
    double tot = 0;
    for (size_t i = 0; i < n; i++) {
        double y = o->access_blob(i), r = expl(x[i] - m) / sum;
        if (!(y >= 0 && y <= 1)) return mc::fail("element " + std::to_string(i) + " is " + fstr(y) + ", not in [0,1]");
        if (std::fabs(y - r) > 2e-5 * r + 1.2e-38) return mc::fail("element " + std::to_string(i) + " is " + fstr(y) + ", expected " + fstr(r));
        tot += y;
    }
    if (std::fabs(tot - 1) > 1e-5) return mc::fail("the entries sum to " + std::to_string(tot));
    if (n <= 64) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (x[i] < x[j] && o->access_blob(i) > o->access_blob(j)) return mc::fail("order of elements " + std::to_string(i) + " and " + std::to_string(j) + " is reversed");
    mc::check(n + 1); mc::outcome(digest(o));
    // shift invariance, with shifts that are exact for the small integers used
    bool ints = true; for (float v : x) if (v != std::floor(v) || std::fabs(v) > 20000) ints = false;
    if (ints) for (float c : {-20000.f, -300.f, 7.f, 4000.f, 100000.f}) {
        TP a = make(s), b = make(s); for (size_t i = 0; i < n; i++) a->access_blob(i) = x[i] + c;
        l.run(a.get(), b.get()); mc::step();
        for (size_t i = 0; i < n; i++) if (std::fabs((double) b->access_blob(i) - o->access_blob(i)) > 2e-5 * o->access_blob(i) + 1.2e-38) return mc::fail("adding " + fstr(c) + " changes element " + std::to_string(i) + " from " + fstr(o->access_blob(i)) + " to " + fstr(b->access_blob(i)));
        mc::check(n);
    }
}
void mc::explore() {
    const uint32_t NV = sizeof V / sizeof *V;
    for (uint32_t n = 1; n <= (mc::thorough ? 5u : 4u); n++) { Odo o(std::vector<uint32_t>(n, NV)); for (bool g = true; g; g = o.next()) { std::vector<float> x; for (auto k : o.v) x.push_back(V[k]); one(x, {1, n}, (o.v[0] + n) & 1, "all"); } }
    std::vector<Shape> shapes;
    for (uint32_t n : {1000u, 4097u, 66000u}) shapes.push_back({1, n});
    for (uint32_t n = 1; n <= (mc::thorough ? 300u : 130u); n++) { shapes.push_back({n}); shapes.push_back({1, n}); }
    for (uint32_t n : {1000u, 1024u, 4099u, 20000u}) shapes.push_back({1, n});
    for (uint32_t a = 1; a <= 3; a++) for (uint32_t b = 1; b <= 3; b++) for (uint32_t c = 1; c <= 3; c++) { shapes.push_back({1, a * 2, b * c}); shapes.push_back({1, a, b, c}); shapes.push_back({a, b}); }
    for (auto &s : shapes) for (int pat = 0; pat < 8; pat++) for (int ip = 0; ip < 2; ip++) {
        uint32_t n = nelem(s); std::vector<float> x(n);
        for (uint32_t i = 0; i < n; i++) switch (pat) {
            case 0: x[i] = 0; break;
            case 1: x[i] = val(5, i, 12); break;
            case 2: x[i] = i == n - 1 ? 1000 : 0; break;
            case 3: x[i] = i == 0 ? 120 : -(float) i; break;
            case 4: x[i] = val(6, i, 3000); break;
            case 5: x[i] = -5000 - (float) (i % 17); break;
            case 6: x[i] = V[(i * 5 + 1) % NV]; break;
            case 7: x[i] = 3.4028235e38f; break;
        }
        static const char *tags[] = {"zeros", "small", "last-dominates", "first-dominates", "wide", "very-negative", "mixed", "all-max"};
        one(x, s, ip, tags[pat]);
    }
}

// Helpers shared by the harnesses that drive the public C++ API.
#pragma once
#include "mc.h"
#include "pico-cnn/pico-cnn.h"
#include <memory>
using pico_cnn::naive::Tensor;
namespace naive = pico_cnn::naive;
using pico_cnn::op_type;

typedef std::vector<uint32_t> Shape;
typedef std::unique_ptr<Tensor> TP;

inline TP make(const Shape &s) {
    switch (s.size()) {
        case 1: return TP(new Tensor(s[0]));
        case 2: return TP(new Tensor(s[0], s[1]));
        case 3: return TP(new Tensor(s[0], s[1], s[2]));
        default: return TP(new Tensor(s[0], s[1], s[2], s[3]));
    }
}
inline uint32_t nelem(const Shape &s) { uint32_t n = 1; for (auto x : s) n *= x; return n; }
inline std::string str(const Shape &s) { std::string r = "("; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]); return r + ")"; }
inline std::string fstr(float f) { char b[64]; snprintf(b, sizeof b, "%a(%g)", f, f); return b; }

// Deterministic small integers, never zero, different neighbours: sums of products stay exact in float, so any
// summation order gives the same result and any mis-addressed element changes it (with overwhelming likelihood
// over the several valuations tried).
inline float val(uint32_t salt, uint32_t i, int range = 7) {
    uint64_t h = mc::mix(((uint64_t) salt << 32) ^ (i * 2654435761u) ^ (mc::seed * 0x51ed2701ull));
    int v = (int) (h % (2 * range)) - range;          // -range .. range-1
    return (float) (v >= 0 ? v + 1 : v);              // skip 0
}
inline void fill(Tensor *t, uint32_t salt, int range = 7) { for (uint32_t i = 0; i < t->num_elements(); i++) t->access_blob(i) = val(salt, i, range) * 0.25f; }   // quarters: fractions matter, sums stay exact
inline void fill_const(Tensor *t, float v) { for (uint32_t i = 0; i < t->num_elements(); i++) t->access_blob(i) = v; }
inline std::vector<float> snap(const Tensor *t) { std::vector<float> v(t->num_elements()); for (uint32_t i = 0; i < v.size(); i++) v[i] = t->access_blob(i); return v; }
inline bool same_bits(const Tensor *t, const std::vector<float> &v) {
    if (t->num_elements() != v.size()) return false;
    for (uint32_t i = 0; i < v.size(); i++) { float a = t->access_blob(i); if (memcmp(&a, &v[i], 4)) return false; }
    return true;
}
inline uint64_t digest(const Tensor *t) { auto v = snap(t); return mc::hash_bytes(v.data(), v.size() * 4); }

// Garbage put in outputs before a run; no expected value equals it.
static const float GARBAGE = 123456.75f;

// Compares all elements with an exact reference; reports the first difference.
inline bool expect_exact(const Tensor *t, const std::vector<double> &ref, const char *what = "output") {
    if (t->num_elements() != ref.size()) { mc::fail(std::string(what) + ": element count " + std::to_string(t->num_elements()) + " instead of " + std::to_string(ref.size())); return false; }
    for (uint32_t i = 0; i < ref.size(); i++) {
        if (!((double) t->access_blob(i) == ref[i])) {
            mc::fail(std::string(what) + "[" + std::to_string(i) + "] is " + fstr(t->access_blob(i)) + ", expected " + fstr((float) ref[i]));
            return false;
        }
    }
    mc::check(ref.size());
    return true;
}
inline bool close(double a, double b, double rel = 1e-5, double abs = 1e-6) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs + rel * std::fabs(b);
}
inline bool expect_close(const Tensor *t, const std::vector<double> &ref, double rel = 1e-5, double abs = 1e-6, const char *what = "output") {
    if (t->num_elements() != ref.size()) { mc::fail(std::string(what) + ": wrong element count"); return false; }
    for (uint32_t i = 0; i < ref.size(); i++) {
        if (!close(t->access_blob(i), ref[i], rel, abs)) {
            mc::fail(std::string(what) + "[" + std::to_string(i) + "] is " + fstr(t->access_blob(i)) + ", expected " + fstr((float) ref[i]));
            return false;
        }
    }
    mc::check(ref.size());
    return true;
}
// Where a NaN among the inputs reaches an output its value is left open (reference NaN); every other output has to be right.
inline bool expect_apart(const Tensor *t, const std::vector<double> &ref, double rel = 0, double abs = 0, const char *what = "output") {
    if (t->num_elements() != ref.size()) { mc::fail(std::string(what) + ": wrong element count"); return false; }
    for (uint32_t i = 0; i < ref.size(); i++) {
        if (!std::isnan(ref[i]) && !close(t->access_blob(i), ref[i], rel, abs)) { mc::fail(std::string(what) + "[" + std::to_string(i) + "] does not depend on the NaN in the input, but is " + fstr(t->access_blob(i)) + ", expected " + fstr((float) ref[i])); return false; }
    }
    mc::check(ref.size());
    return true;
}
// Iterate over all vectors in prod [0,dims[i])
struct Odo {
    std::vector<uint32_t> d, v; bool ok = true;
    explicit Odo(std::vector<uint32_t> dims) : d(dims), v(dims.size(), 0) { for (auto x : d) if (!x) ok = false; }
    bool next() { for (int i = (int) d.size() - 1; i >= 0; i--) { if (++v[i] < d[i]) return true; v[i] = 0; } return ok = false; }
};

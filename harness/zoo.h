// A collection of layer configurations behind one interface, used by the effect (E) harnesses.
#pragma once
#include "pc.h"

struct Obj {                                   // a constructed layer
    std::function<void(Tensor *, Tensor *)> run;
    std::function<void()> destroy;
};
struct Spec {
    std::string name;
    std::vector<Shape> params;                 // parameter tensors
    Shape in, out;
    // builds the layer from parameter tensors and plain arrays; arrays are passed from exact-size heap blocks
    std::function<Obj(const std::vector<Tensor *> &, uint32_t *a, uint32_t *b, uint32_t *c)> make;
    std::vector<uint32_t> a, b, c;             // constructor arrays (empty = nullptr)
    bool positive_params = false;              // e.g. variances
    bool inplace = false;                      // may run with output == input
    Shape in2, out2;                           // a second input shape this same layer object accepts (empty: none)
};
template <class L> Obj wrap(L *l) { return {[l](Tensor *i, Tensor *o) { l->run(i, o); }, [l] { delete l; }}; }
static std::string long_name(const std::string &s) { return s + std::string(40, '_') + "0123456789"; }

static Spec conv2(const char *n, Shape in, uint32_t oc, uint32_t g, uint32_t kh, uint32_t kw, std::vector<uint32_t> st, std::vector<uint32_t> pad, bool bias, Shape in2 = {}) {
    auto os = [=](const Shape &i) { uint32_t H = i[2], W = i[3]; if (!pad.empty()) { H += pad[0] + pad[2]; W += pad[1] + pad[3]; } return Shape{1, oc, (H - kh) / st[0] + 1, (W - kw) / st[1] + 1}; };
    Spec s; s.name = n; s.in = in; s.out = os(in); s.params = {{oc, in[1] / g, kh, kw}}; if (bias) s.params.push_back({oc}); s.a = pad; s.b = st;
    if (!in2.empty()) { s.in2 = in2; s.out2 = os(in2); }
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *a, uint32_t *b, uint32_t *) { return wrap(new naive::Convolution(long_name(n), 1, op_type::Conv, p[0], bias ? p[1] : nullptr, a, b, g)); };
    return s;
}
static Spec conv1(const char *n, Shape in, uint32_t oc, uint32_t g, uint32_t k, uint32_t st, std::vector<uint32_t> pad, bool bias, Shape in2 = {}) {
    auto os = [=](const Shape &i) { uint32_t W = i[2]; if (!pad.empty()) W += pad[0] + pad[1]; return Shape{1, oc, (W - k) / st + 1}; };
    Spec s; s.name = n; s.in = in; s.out = os(in); s.params = {{oc, in[1] / g, k}}; if (bias) s.params.push_back({oc}); s.a = pad; if (!pad.empty()) s.a.resize(4, 0); s.b = {st, 1};
    if (!in2.empty()) { s.in2 = in2; s.out2 = os(in2); }
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *a, uint32_t *b, uint32_t *) { return wrap(new naive::Convolution(long_name(n), 1, op_type::Conv, p[0], bias ? p[1] : nullptr, a, b, g)); };
    return s;
}
// kind 0 max, 1 average counting padding, 2 average not counting padding
static Spec pool(const char *n, int kind, Shape in, std::vector<uint32_t> k, std::vector<uint32_t> st, std::vector<uint32_t> pad, Shape in2 = {}) {
    auto os = [=](const Shape &i) {
        if (i.size() == 4) { uint32_t H = i[2], W = i[3]; if (!pad.empty()) { H += pad[0] + pad[2]; W += pad[1] + pad[3]; } return Shape{i[0], i[1], (H - k[0]) / st[0] + 1, (W - k[1]) / st[1] + 1}; }
        uint32_t W = i[2]; if (!pad.empty()) W += pad[0] + pad[1]; return Shape{i[0], i[1], (W - k[0]) / st[0] + 1};
    };
    Spec s; s.name = n; s.in = in; s.out = os(in); s.a = pad; if (!pad.empty()) s.a.resize(4, 0); s.b = st; s.c = k; s.b.resize(2, 1); s.c.resize(2, 1);
    if (!in2.empty()) { s.in2 = in2; s.out2 = os(in2); }
    s.make = [=](const std::vector<Tensor *> &, uint32_t *a, uint32_t *b, uint32_t *c) {
        if (kind == 0) return wrap(new naive::MaxPooling(long_name(n), 1, op_type::MaxPool, c, b, a));
        return wrap(new naive::AveragePooling(long_name(n), 1, op_type::AveragePool, c, b, a, kind == 1));
    };
    return s;
}
static Spec gpool(const char *n, bool avg, Shape in, Shape in2 = {}) {
    auto os = [](const Shape &i) { return i.size() == 4 ? Shape{i[0], i[1], 1, 1} : Shape{i[0], i[1], 1}; };
    Spec s; s.name = n; s.in = in; s.out = os(in); if (!in2.empty()) { s.in2 = in2; s.out2 = os(in2); }
    s.make = [=](const std::vector<Tensor *> &, uint32_t *, uint32_t *, uint32_t *) {
        if (avg) return wrap(new naive::GlobalAveragePooling(long_name(n), 1, op_type::GlobalAveragePool, nullptr, nullptr, nullptr));
        return wrap(new naive::GlobalMaxPooling(long_name(n), 1, op_type::GlobalMaxPool, nullptr, nullptr, nullptr));
    };
    return s;
}
static Spec fc(const char *n, uint32_t X, uint32_t Y, bool bias) {
    Spec s; s.name = n; s.in = {1, X}; s.out = {1, Y}; s.params = {{Y, X}}; if (bias) s.params.push_back({Y});
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *, uint32_t *, uint32_t *) { return wrap(new naive::FullyConnected(long_name(n), 1, op_type::Gemm, p[0], bias ? p[1] : nullptr)); };
    return s;
}
static Spec matmul(const char *n, uint32_t X, uint32_t Y) {
    Spec s; s.name = n; s.in = {1, X}; s.out = {1, Y}; s.params = {{X, Y}};
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *, uint32_t *, uint32_t *) { return wrap(new naive::MatMul(long_name(n), 1, op_type::MatMul, p[0])); };
    return s;
}
static Spec bnorm(const char *n, Shape in, float eps, Shape in2 = {}) {
    uint32_t C = in[1]; Spec s; s.name = n; s.in = s.out = in; s.in2 = s.out2 = in2; s.params = {{C}, {C}, {C}, {C}}; s.positive_params = true; s.inplace = true;
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *, uint32_t *, uint32_t *) { return wrap(new naive::BatchNormalization(long_name(n), 1, op_type::BatchNormalization, p[0], p[1], p[2], p[3], eps)); };
    return s;
}
enum ActKind { A_RELU, A_LEAKY, A_PRELU, A_CLIP, A_SIGMOID, A_TANH, A_SOFTMAX, A_LRN };
static Spec act(const char *n, ActKind k, Shape in, Shape in2 = {}) {
    Spec s; s.name = n; s.in = s.out = in; s.in2 = s.out2 = in2; s.inplace = k != A_LRN; if (k == A_PRELU) s.params = {in};
    s.make = [=](const std::vector<Tensor *> &p, uint32_t *, uint32_t *, uint32_t *) -> Obj {
        std::string nm = long_name(n);
        switch (k) {
            case A_RELU: return wrap(new naive::ReLU(nm, 1, op_type::ReLU));
            case A_LEAKY: return wrap(new naive::LeakyReLU(nm, 1, op_type::LeakyReLU, 0.3f));
            case A_PRELU: return wrap(new naive::ParameterizedReLU(nm, 1, op_type::ParamReLU, p[0]));
            case A_CLIP: return wrap(new naive::Clip(nm, 1, op_type::Clip, -2.5f, 4.f));
            case A_SIGMOID: return wrap(new naive::Sigmoid(nm, 1, op_type::Sigmoid));
            case A_TANH: return wrap(new naive::TanH(nm, 1, op_type::TanH));
            case A_SOFTMAX: return wrap(new naive::Softmax(nm, 1, op_type::Softmax));
            default: return wrap(new naive::LRN(nm, 1, op_type::LRN, 0.5f, 0.75f, 3));
        }
    };
    return s;
}
// a compact set with at least one configuration of every layer class
static std::vector<Spec> small_zoo() {
    return {
        conv2("conv2d", {1,2,3,4}, 2, 1, 3, 3, {1,1}, {1,1,0,2}, true, {1,2,5,3}),
        conv2("conv2d-groups", {1,4,3,3}, 2, 2, 1, 3, {1,2}, {}, false, {1,4,2,5}),
        conv1("conv1d", {1,2,6}, 3, 1, 3, 1, {1,1}, true, {1,2,9}),
        conv1("conv1d-strided", {1,2,7}, 2, 2, 3, 2, {}, false),
        pool("maxpool2d", 0, {1,2,4,4}, {2,2}, {2,2}, {1,0,1,0}, {2,1,3,5}),
        pool("maxpool1d", 0, {1,2,7}, {3}, {2}, {2,1}, {2,3,5}),
        pool("avgpool2d", 2, {1,2,4,4}, {3,2}, {1,2}, {2,1,0,0}, {1,3,5,3}),
        pool("avgpool2d-incl", 1, {1,1,4,5}, {2,2}, {2,1}, {1,1,0,0}),
        pool("avgpool1d", 2, {1,2,6}, {3}, {1}, {1,1}),
        gpool("globalmax", false, {1,3,2,3}, {2,2,4,1}),
        gpool("globalavg", true, {1,3,2,3}, {1,2,5}),
        fc("fc", 5, 3, true), fc("fc-nobias", 3, 5, false), matmul("matmul", 4, 3),
        bnorm("batchnorm", {1,3,2,2}, 1e-3f, {1,3,4}),
        act("relu", A_RELU, {1,2,2,3}, {1,7}), act("leakyrelu", A_LEAKY, {1,5}, {1,2,4}), act("prelu", A_PRELU, {1,2,3}),
        act("clip", A_CLIP, {1,6}, {1,2,2,2}), act("sigmoid", A_SIGMOID, {1,5}, {2,3,2}), act("tanh", A_TANH, {1,5}, {1,1,3,2}),
        act("softmax", A_SOFTMAX, {1,6}, {1,9}), act("lrn", A_LRN, {1,4,2,2}, {2,3,1,3}),
    };
}
// many more configurations: every interesting combination per layer class
static std::vector<Spec> big_zoo() {
    std::vector<Spec> z = small_zoo();
    for (uint32_t g : {1u, 2u}) for (uint32_t k : {1u, 3u, 5u}) for (uint32_t st : {1u, 2u, 3u}) for (bool bias : {false, true})
        for (std::vector<uint32_t> pad : {std::vector<uint32_t>{}, {0,0,0,0}, {1,1,1,1}, {2,0,1,3}}) {
            z.push_back(conv2("conv2d*", {1,4,6,5}, 4, g, k, k, {st, 3 - (st + 1) % 3}, pad, bias, {1,4,5,8}));
            if (pad.empty()) { z.push_back(conv1("conv1d*", {1,4,9}, 4, g, k, st, {}, bias, {1,4,6})); z.push_back(conv1("conv1d*", {1,4,9}, 2, g, k, st, {2,1}, bias)); }
        }
    z.push_back(conv2("depthwise", {1,3,5,5}, 3, 3, 3, 3, {1,1}, {1,1,1,1}, true)); z.push_back(conv2("depthwise-mult", {1,3,5,5}, 6, 3, 3, 1, {2,1}, {}, true));
    z.push_back(conv2("pointwise", {1,9,4,4}, 17, 1, 1, 1, {1,1}, {}, true)); z.push_back(conv2("wide", {1,1,3,70}, 2, 1, 3, 3, {1,1}, {1,1,1,1}, true));
    for (int kind = 0; kind < 3; kind++) for (uint32_t k : {1u, 2u, 3u}) for (uint32_t st : {1u, 2u, 3u}) for (uint32_t p = 0; p < 3 && p <= k; p++) {
        uint32_t q = std::min(p, k - 1);
        z.push_back(pool("pool2d*", kind, {1 + p % 2, 2, 5, 4}, {k, 1 + k % 3}, {st, 1 + st % 2}, p ? std::vector<uint32_t>{q, 0, std::min(1u, k - 1), std::min(1u, k % 3)} : std::vector<uint32_t>{}, {1,3,7,6}));
        z.push_back(pool("pool1d*", kind, {2, 2, 7}, {k}, {st}, p ? std::vector<uint32_t>{q, 0} : std::vector<uint32_t>{}, {1,3,12}));
    }
    for (bool a : {false, true}) for (Shape s : {Shape{1,1,1,1}, Shape{2,3,5,4}, Shape{1,4,1,7}, Shape{2,2,9}, Shape{1,1,1}}) z.push_back(gpool("global*", a, s));
    for (uint32_t X : {1u, 2u, 8u, 33u}) for (uint32_t Y : {1u, 3u, 16u}) { z.push_back(fc("fc*", X, Y, true)); z.push_back(fc("fc*", X, Y, false)); z.push_back(matmul("matmul*", X, Y)); }
    for (Shape s : {Shape{1,1,1,1}, Shape{1,5,3,2}, Shape{1,2,8}, Shape{1,9,1}}) z.push_back(bnorm("bn*", s, 0.1f));
    for (Shape s : {Shape{3}, Shape{1,1}, Shape{4,9}, Shape{2,3,5}, Shape{2,3,4,5}, Shape{1,1,1,67}}) for (int k = A_RELU; k <= A_SOFTMAX; k++) z.push_back(act("act*", (ActKind) k, s));
    for (Shape s : {Shape{1,1,1,1}, Shape{2,7,2,3}, Shape{1,2,5,5}}) z.push_back(act("lrn*", A_LRN, s));
    return z;
}
// sizes beyond any small fixed buffer or fast path: every class, small and large shapes for the same layer object
static std::vector<Spec> large_zoo() {
    return {
        conv2("conv2d-large", {1,3,40,37}, 5, 1, 3, 3, {1,1}, {1,1,1,1}, true, {1,3,4,5}),
        conv2("conv2d-wide", {1,1,3,4100}, 1, 1, 3, 1, {1,1}, {}, false, {1,1,9,3}),
        conv2("conv2d-deep", {1,70,3,3}, 66, 1, 1, 1, {1,1}, {}, true, {1,70,1,2}),
        conv2("conv2d-depthwise", {1,66,5,5}, 66, 66, 3, 3, {2,2}, {1,0,1,0}, true, {1,66,3,3}),
        conv2("conv2d-large-kernel", {1,2,20,19}, 2, 1, 17, 15, {1,1}, {0,2,0,2}, true, {1,2,17,15}),
        conv1("conv1d-large", {1,3,1100}, 4, 1, 5, 1, {2,2}, true, {1,3,7}), conv1("conv1d-deep", {1,130,9}, 3, 1, 3, 2, {}, false, {1,130,3}),
        pool("maxpool2d-large", 0, {2,3,45,70}, {3,3}, {2,2}, {1,1,1,1}, {1,2,90,70}), pool("maxpool2d-window", 0, {1,1,40,40}, {33,34}, {3,2}, {}, {1,1,33,34}),
        pool("maxpool1d-large", 0, {1,3,1500}, {3}, {2}, {1,1}, {1,1,4}),
        pool("avgpool2d-large", 2, {2,3,45,70}, {3,3}, {2,2}, {1,1,1,1}, {1,2,90,70}), pool("avgpool2d-incl-large", 1, {1,2,40,70}, {33,2}, {1,2}, {0,1,0,1}, {1,1,33,2}),
        pool("avgpool1d-large", 2, {1,3,1500}, {3}, {2}, {1,1}, {1,1,4}), pool("avgpool1d-incl-large", 1, {1,3,1500}, {5}, {3}, {}, {1,1,6}),
        gpool("globalmax-large", false, {2,70,20,20}, {1,1,1,1}), gpool("globalavg-large", true, {2,70,20,20}, {1,1,1,1}), gpool("globalmax1d-large", false, {1,3,4100}, {1,2,2}), gpool("globalavg1d-large", true, {1,3,4100}, {1,2,2}),
        fc("fc-large", 1100, 33, true), fc("fc-wide", 9, 1100, false), matmul("matmul-large", 1100, 33), matmul("matmul-wide", 9, 1100),
        bnorm("batchnorm-large", {1,70,9,9}, 1e-3f, {1,70,2}),
        act("relu-large", A_RELU, {1,3,40,40}, {1,5}), act("leakyrelu-large", A_LEAKY, {1,4900}, {1,5}), act("prelu-large", A_PRELU, {1,4900}), act("clip-large", A_CLIP, {1,3,40,40}, {1,5}),
        act("sigmoid-large", A_SIGMOID, {1,3,40,40}, {1,5}), act("tanh-large", A_TANH, {1,3,40,40}, {1,5}), act("softmax-large", A_SOFTMAX, {1,4900}, {1,5}),
        act("lrn-large", A_LRN, {2,70,7,6}, {1,2,2,2}),
    };
}
struct Arr { uint32_t *p = nullptr; std::vector<uint32_t> v; explicit Arr(const std::vector<uint32_t> &x) : v(x) { if (!x.empty()) { p = new uint32_t[x.size()]; std::copy(x.begin(), x.end(), p); } } void scramble() { if (p) for (size_t i = 0; i < v.size(); i++) p[i] = 0xdead0000u + i; } bool intact() { return !p || std::equal(v.begin(), v.end(), p); } ~Arr() { delete[] p; } Arr(const Arr &) = delete; };
inline void fill_params(const Spec &s, std::vector<TP> &p, uint32_t salt) {
    for (size_t i = 0; i < p.size(); i++) { fill(p[i].get(), salt * 17 + i, 6); if (s.positive_params && i == 3) for (uint32_t k = 0; k < p[i]->num_elements(); k++) p[i]->access_blob(k) = std::fabs(p[i]->access_blob(k)); }
}
inline std::vector<Tensor *> raw(const std::vector<TP> &p) { std::vector<Tensor *> r; for (auto &x : p) r.push_back(x.get()); return r; }
inline std::vector<TP> make_params(const Spec &s, uint32_t salt) { std::vector<TP> p; for (auto &x : s.params) p.push_back(make(x)); fill_params(s, p, salt); return p; }

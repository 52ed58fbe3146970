// E04: requests outside the supported subset end the process with an error; supported ones do not.
#include "zoo.h"
MC_RULE("one case per (operation, configuration, tensor shapes); every case runs in a process of its own under guarded memory; expected: error message and failing exit status for what is not supported, normal return without an error message for what is; states are distinct (operation, shapes, verdict)");

struct FdBuf : std::streambuf {        // cerr of the child, unbuffered, into a file
    int fd; explicit FdBuf(int f) : fd(f) {}
    int overflow(int c) override { char ch = (char) c; if (c != EOF && write(fd, &ch, 1) < 0) {} return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { if (write(fd, s, n) < 0) {} return n; }
};
enum Want { REJECT, ACCEPT };

template <class D, class F> static void one(D d, Want want, F body) {
    if (!mc::take()) return;
    MC_CASE(d);
    std::string ef = mc::scratch + "/child_err";
    int st = mc::isolated([&] {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd < 0) return 77;
        dup2(fd, 2);
        std::cerr.clear(); std::cerr.rdbuf(new FdBuf(2));     // lives until the process ends
        body();
        return 0;
    }, 60);
    mc::step();
    std::string err = mc::read_file(ef, 1 << 16);
    bool told = err.find("[ERROR]") != std::string::npos || err.find("rror") != std::string::npos;
    mc::outcome(mc::hash_bytes(mc::description().data(), mc::description().size(), st));
    mc::check(2);
    std::string low = mc::tail(err, 300);
    if (st == 77) return mc::fail("harness: cannot create the error file");
    if (st < 0) return mc::fail("the process was killed by signal " + std::to_string(-st) + " | " + low);
    if (st == 99 || st == 98) return mc::fail("memory or arithmetic error instead of a verdict | " + low);
    if (want == REJECT) {
        if (st == 0) return mc::fail(told ? "an error was printed but the call returned as if it had worked" : "not supported, but the call returned as if it had worked");
        if (!told) return mc::fail("the process ended without an error message");
    } else {
        if (st != 0) return mc::fail("supported, but the process ended with status " + std::to_string(st) + " | " + low);
        if (told) return mc::fail("supported, but an error was printed | " + low);
    }
}

// all shapes of one rank over the given extents
static std::vector<Shape> shapes(uint32_t rank, std::vector<uint32_t> ext) {
    std::vector<Shape> r; Odo o(std::vector<uint32_t>(rank, ext.size()));
    do { Shape s; for (auto i : o.v) s.push_back(ext[i]); r.push_back(s); } while (o.next());
    return r;
}

// layer configurations and what they accept as input rank / batch
struct Rule { Spec s; std::vector<uint32_t> ranks; bool batch1; };
static std::vector<Rule> rules() {
    std::vector<Rule> r;
    typedef std::vector<uint32_t> V;
    for (bool bias : {false, true}) for (V pad : {V{}, V{0, 0, 0, 0}, V{1, 1, 1, 1}, V{2, 0, 1, 3}}) for (uint32_t g : {1u, 2u}) {
        r.push_back({conv2("conv2d", {1, 2, 5, 5}, 2, g, 3, 3, {1, 1}, pad, bias), {3, 4}, true});
        r.push_back({conv2("conv2d-1x1", {1, 2, 5, 5}, 2, g, 1, 1, {1, 2}, pad, bias), {3, 4}, true});
        r.push_back({conv1("conv1d", {1, 2, 9}, 2, g, 3, 1, pad, bias), {3, 4}, true});
    }
    for (int kind = 0; kind < 3; kind++) for (V pad : {V{}, V{0, 0, 0, 0}, V{1, 1, 1, 1}}) {
        r.push_back({pool("pool2d", kind, {1, 2, 4, 4}, {2, 2}, {1, 1}, pad), {3, 4}, false});
        r.push_back({pool("pool1d", kind, {1, 2, 6}, {3}, {2}, pad), {3, 4}, false});
    }
    for (bool a : {false, true}) for (Shape s : {Shape{1, 3, 2, 3}, Shape{2, 2, 4}}) r.push_back({gpool(a ? "globalavg" : "globalmax", a, s), {3, 4}, false});
    for (Shape s : {Shape{1, 3, 2, 2}, Shape{1, 3, 4}}) r.push_back({bnorm("batchnorm", s, 1e-3f), {3, 4}, true});
    r.push_back({act("lrn", A_LRN, {1, 4, 2, 2}), {4}, false});
    return r;
}
static bool in(const std::vector<uint32_t> &v, uint32_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }

void mc::explore() {
    std::vector<uint32_t> ext = mc::thorough ? std::vector<uint32_t>{1, 2, 3, 5, 9} : std::vector<uint32_t>{1, 2, 5};
    auto run_layer = [&](const Spec &s, const Shape &is, const Shape &os, Want w) {
        auto d = [&] { return "layer " + s.name + " made for " + str(s.in) + " a=" + str(s.a) + " b=" + str(s.b) + " c=" + str(s.c) + " params=" + std::to_string(s.params.size()) + ": input " + str(is) + " output " + str(os); };
        one(d, w, [&] {
            std::vector<TP> p = make_params(s, 3); Arr a(s.a), b(s.b), c(s.c);
            TP i = make(is), o = make(os); fill(i.get(), 5); fill_const(o.get(), GARBAGE);
            Obj l = s.make(raw(p), a.p, b.p, c.p); l.run(i.get(), o.get()); l.destroy();
        });
    };
    // 1. layers given an input of a rank they do not support
    for (auto &r : rules()) {
        for (uint32_t rank = 1; rank <= 4; rank++) {
            if (in(r.ranks, rank)) continue;
            for (auto &is : shapes(rank, ext)) { run_layer(r.s, is, r.s.out, REJECT); run_layer(r.s, is, is, REJECT); }
        }
        run_layer(r.s, r.s.in, r.s.out, ACCEPT);
        // 2. a batch where only one picture is supported
        for (uint32_t b : {2u, 3u, 4u, 255u, 256u, 257u}) {
            if (b > 4 && r.s.name != "conv2d-1x1" && r.s.name != "batchnorm" && r.s.name != "conv1d") continue;
            Shape is = r.s.in, os = r.s.out; is[0] = os[0] = b;
            run_layer(r.s, is, os, r.batch1 ? REJECT : ACCEPT);
        }
    }
    // 3. fully connected: input and output are rows
    for (bool bias : {false, true}) {
        Spec s = fc("fc", 4, 4, bias);
        std::map<uint32_t, std::vector<Shape>> by;
        by[1] = {{4}, {1}, {7}}; by[2] = {{1, 4}}; by[3] = {{1, 1, 4}, {1, 4, 1}, {2, 2, 1}}; by[4] = {{1, 1, 1, 4}, {1, 4, 1, 1}, {1, 2, 2, 1}};
        for (auto &i : by) for (auto &o : by) for (auto &is : i.second) for (auto &os : o.second) run_layer(s, is, os, i.first == 2 && o.first == 2 ? ACCEPT : REJECT);
    }
    // 4. parameterised ReLU: slope of the input's rank and size only
    {
        std::vector<Shape> all; for (uint32_t r = 1; r <= 4; r++) for (auto &s : shapes(r, mc::thorough ? std::vector<uint32_t>{1, 2, 3, 4} : std::vector<uint32_t>{1, 2, 3})) if (r < 4 || mc::thorough || (s[0] == 1 && s[3] < 3)) all.push_back(s);
        for (auto &is : all) for (auto &sl : all) {
            bool same = is.size() == sl.size() && nelem(is) == nelem(sl);
            if (same && is != sl) continue;                       // equal size, other extents: not specified
            auto d = [&] { return "parameterised ReLU, slope " + str(sl) + ", input " + str(is); };
            one(d, same ? ACCEPT : REJECT, [&] { TP s = make(sl), i = make(is), o = make(is); fill(s.get(), 1); fill(i.get(), 2); naive::ParameterizedReLU l("prelu", 1, op_type::ParamReLU, s.get()); l.run(i.get(), o.get()); });
        }
        // 5. copies between tensors of different size
        for (auto &a : all) for (auto &b : all) {
            auto d = [&] { return "copy of " + str(a) + " into " + str(b); };
            one(d, nelem(a) == nelem(b) ? ACCEPT : REJECT, [&] { TP x = make(a), y = make(b); fill(x.get(), 1); x->copy_data_into(y.get()); });
        }
    }
    // sizes that agree only in their low bits
    for (uint32_t e : {1u, 2u, 255u, 256u, 257u, 65535u, 65536u}) for (uint32_t k : {1u, 256u, 65536u, 131072u}) for (bool fwd : {false, true}) {
        Shape a{e}, b{e + k}; if (!fwd) std::swap(a, b);
        auto d = [&] { return "copy of " + str(a) + " into " + str(b); };
        one(d, REJECT, [&] { TP x = make(a), y = make(b); fill_const(x.get(), 1); x->copy_data_into(y.get()); });
        auto d2 = [&] { return "parameterised ReLU, slope " + str(a) + ", input " + str(b); };
        one(d2, REJECT, [&] { TP s = make(a), i = make(b), o = make(b); fill_const(s.get(), 1); fill_const(i.get(), -1); naive::ParameterizedReLU l("prelu", 1, op_type::ParamReLU, s.get()); l.run(i.get(), o.get()); });
    }
    // 6. height and width of tensors that have none
    for (uint32_t e : {1u, 2u, 3u, 7u, 256u, 65536u}) {
        auto d = [&] { return "height of (" + std::to_string(e) + ")"; };
        one(d, REJECT, [&] { TP t = make({e}); volatile uint32_t v = t->height(); (void) v; });
        auto d2 = [&] { return "width of (" + std::to_string(e) + ")"; };
        one(d2, REJECT, [&] { TP t = make({e}); volatile uint32_t v = t->width(); (void) v; });
    }
    for (uint32_t r = 2; r <= 4; r++) for (auto &s : shapes(r, {1, 2})) {
        auto d = [&] { return "height and width of " + str(s); };
        one(d, ACCEPT, [&] { TP t = make(s); volatile uint32_t v = t->width() + t->height(); (void) v; });
    }
    // 7. padding of a rank-1 tensor
    for (uint32_t e : {1u, 2u, 3u, 7u}) { Odo o({3, 3, 2, 2}); do {
        auto d = [&] { return "padding of (" + std::to_string(e) + ") by " + str(o.v); };
        one(d, REJECT, [&] { TP t = make({e}); fill(t.get(), 1); Arr p(o.v); delete t->expand_with_padding(p.p, 2.f); });
        auto d2 = [&] { return "copy of (" + std::to_string(e) + ") with padding " + str(o.v); };
        one(d2, REJECT, [&] { TP t = make({e}), u = make({e + o.v[0] + o.v[1]}); fill(t.get(), 1); Arr p(o.v); t->copy_with_padding_into(u.get(), p.p, 2.f); });
    } while (o.next()); }
    // 8. concatenation along anything but the channels
    for (uint32_t r = 2; r <= 4; r++) for (auto &s : shapes(r, {1, 2, 3})) for (uint32_t n = 1; n <= 3; n++) for (uint32_t dim : {0u, 1u, 2u, 3u, 4u, 257u, 65537u, 0xffffffffu}) {
        Shape o = s; if (dim < r) o[dim] *= n; else o[1] *= n;
        auto d = [&] { return "concatenation of " + std::to_string(n) + " tensors " + str(s) + " along dimension " + std::to_string(dim); };
        one(d, dim == 1 ? ACCEPT : REJECT, [&] { std::vector<TP> v; std::vector<Tensor *> q; for (uint32_t k = 0; k < n; k++) { v.push_back(make(s)); fill(v.back().get(), k); q.push_back(v.back().get()); } TP t = make(o); t->concatenate_from(n, q.data(), dim); });
    }
    // 9. averages over windows that hold no element at all
    for (uint32_t rank : {3u, 4u}) for (uint32_t k : {1u, 2u, 3u}) for (uint32_t st : {1u, 2u, 3u}) for (uint32_t e : {3u, 5u, 8u})
        for (uint32_t kw : {1u, 3u}) { Odo o({5, 5, rank == 4 ? 5u : 1u, rank == 4 ? 5u : 1u}); do {
            auto &p = o.v;
            if (rank == 3 && kw != 1) continue;
            if (!mc::thorough && rank == 4 && (p[0] % 2 || p[3] == 3 || (kw == 3 && p[2] == 2))) continue;
            // an axis holds an empty window when one of its windows misses [before, before+e)
            auto axis = [&](uint32_t win, uint32_t b, uint32_t a, uint32_t step, bool &fits) { uint32_t L = e + b + a; fits = L >= win; bool empty = false; if (fits) for (uint32_t s = 0; s + win <= L; s += step) if (s + win <= b || s >= b + e) empty = true; return empty; };
            bool f1, f2 = true, empty;
            if (rank == 4) { bool ea = axis(k, p[0], p[2], st, f1), eb = axis(kw, p[1], p[3], st, f2); empty = ea || eb; } else empty = axis(k, p[0], p[1], st, f1);
            if (!f1 || !f2) continue;
            Shape is = rank == 4 ? Shape{1, 1, e, e} : Shape{1, 1, e};
            Spec s = rank == 4 ? pool("avgpool2d", 2, is, {k, kw}, {st, st}, p) : pool("avgpool1d", 2, is, {k}, {st}, {p[0], p[1]});
            run_layer(s, s.in, s.out, empty ? REJECT : ACCEPT);
        } while (o.next()); }
}

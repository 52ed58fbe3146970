// E02: no history matters. All operation sequences over a pool of layers; every run is compared bit for bit with the
// result of a newly built layer in a newly started process.
#include "zoo.h"
MC_RULE("one case per operation sequence: run a layer (first/second input shape, first/second data in the same tensor, fresh or reused output), rewrite a layer's parameters in place, or destroy and rebuild a layer; all sequences of the stated depth ending in a run, plus every run repeated up to 600 times; states are distinct (operation, result) digests");

struct Live { TP in[2], out[2]; std::vector<TP> p; Obj o; int pver = 0; bool built = false; Arr *a = nullptr, *b = nullptr, *c = nullptr; };
static std::vector<Spec> Z;
struct Op { char kind; int layer, v, d; };
static std::vector<Op> ops, runs;
static std::map<std::vector<int>, std::vector<float>> expect;       // (layer, v, d, pver)

static void set_input(Tensor *t, int layer, int v, int d) { fill(t, 1000 + layer * 10 + v * 3 + d, 6); }
static void build(Live &l, int i, int pver) {
    const Spec &s = Z[i];
    l.pver = pver; l.p = make_params(s, 5 + pver);
    l.a = new Arr(s.a); l.b = new Arr(s.b); l.c = new Arr(s.c);
    l.o = s.make(raw(l.p), l.a->p, l.b->p, l.c->p); l.built = true;
    for (int v = 0; v < 2; v++) if (v == 0 || !s.in2.empty()) { l.in[v] = make(v ? s.in2 : s.in); }
}
static void drop(Live &l) { if (!l.built) return; l.o.destroy(); delete l.a; delete l.b; delete l.c; l.p.clear(); for (int v = 0; v < 2; v++) { l.in[v].reset(); l.out[v].reset(); } l.built = false; }
static void compute_expected() {
    for (int i = 0; i < (int) Z.size(); i++) for (int v = 0; v < (Z[i].in2.empty() ? 1 : 2); v++) for (int d = 0; d < 2; d++) for (int pv = 0; pv < (Z[i].params.empty() ? 1 : 2); pv++) {
        int fd[2]; if (pipe(fd)) abort();
        pid_t p = fork();
        if (p == 0) {
            Live l; build(l, i, pv); TP out = make(v ? Z[i].out2 : Z[i].out); set_input(l.in[v].get(), i, v, d);
            l.o.run(l.in[v].get(), out.get());
            auto s = snap(out.get()); if (write(fd[1], s.data(), s.size() * 4) < 0) {}
            _exit(0);
        }
        close(fd[1]); std::vector<float> r(nelem(v ? Z[i].out2 : Z[i].out)); size_t got = 0; ssize_t k;
        while (got < r.size() * 4 && (k = read(fd[0], (char *) r.data() + got, r.size() * 4 - got)) > 0) got += k;
        close(fd[0]); int st; waitpid(p, &st, 0);
        if (got != r.size() * 4) r.clear();                        // the layer died on its own: reported when it is used
        expect[{i, v, d, pv}] = r;
    }
}
static std::string ostr(const Op &o) {
    if (o.kind == 'P') return "rewrite parameters of " + Z[o.layer].name;
    if (o.kind == 'N') return "rebuild " + Z[o.layer].name;
    return "run " + Z[o.layer].name + (o.v ? " on its second shape" : "") + " data" + std::to_string(o.d) + (o.d ? " into the reused output" : " into a fresh output");
}
static void apply(std::map<int, Live> &w, const Op &o, bool &ok, const std::string &where) {
    Live &l = w[o.layer];
    if (!l.built) build(l, o.layer, 0);
    const Spec &s = Z[o.layer];
    if (o.kind == 'P') { l.pver ^= 1; fill_params(s, l.p, 5 + l.pver); }
    else if (o.kind == 'N') { int pv = s.params.empty() ? 0 : l.pver ^ 1; drop(l); build(l, o.layer, pv); }
    else {
        const Shape &os = o.v ? s.out2 : s.out;
        set_input(l.in[o.v].get(), o.layer, o.v, o.d);
        if (!o.d || !l.out[o.v]) { l.out[o.v] = make(os); if (o.d) fill_const(l.out[o.v].get(), GARBAGE); }
        l.o.run(l.in[o.v].get(), l.out[o.v].get());
        auto &e = expect[{o.layer, o.v, o.d, l.pver}];
        if (!same_bits(l.out[o.v].get(), e)) {
            auto g = snap(l.out[o.v].get()); uint32_t k = 0; while (k < e.size() && !memcmp(&g[k], &e[k], 4)) k++;
            mc::fail(where + ostr(o) + ": output element " + std::to_string(k) + " is " + (k < g.size() ? fstr(g[k]) : "?") + ", a fresh layer gives " + (k < e.size() ? fstr(e[k]) : "nothing"));
            ok = false;
        }
        mc::check(e.size());
        static uint64_t cache = 0; uint64_t h = mc::mix(o.layer * 8 + o.v * 4 + o.d * 2 + l.pver) ^ digest(l.out[o.v].get()); if (h != cache) mc::outcome(cache = h);
    }
    mc::step();
}
static void seq(const std::vector<Op> &q) {
    if (!mc::take()) return;
    auto d = [&] { std::string r; for (auto &o : q) r += (r.empty() ? "" : "; ") + ostr(o); return r; };
    MC_CASE(d);
    std::map<int, Live> w; bool ok = true;
    for (size_t i = 0; i < q.size() && ok; i++) apply(w, q[i], ok, "step " + std::to_string(i + 1) + ": ");
    for (auto &x : w) drop(x.second);
}
static void repeat(const Op &o, const Op &other, int n) {
    if (!mc::take()) return;
    auto d = [&] { return ostr(o) + ", " + std::to_string(n) + " times in alternation with: " + ostr(other); };
    MC_CASE(d);
    std::map<int, Live> w; bool ok = true;
    for (int i = 0; i < n && ok; i++) { apply(w, o, ok, "repetition " + std::to_string(i + 1) + ": "); if (ok && i % 3 == 2) apply(w, other, ok, "repetition " + std::to_string(i + 1) + ": "); }
    for (auto &x : w) drop(x.second);
}
void mc::explore() {
    Z = small_zoo();
#ifndef DEEP
    size_t small = Z.size();
    for (auto &s : large_zoo()) Z.push_back(s);
#endif
    compute_expected();
    for (int i = 0; i < (int) Z.size(); i++) {
        for (int v = 0; v < (Z[i].in2.empty() ? 1 : 2); v++) for (int d = 0; d < 2; d++) { ops.push_back({'R', i, v, d}); runs.push_back({'R', i, v, d}); }
        if (!Z[i].params.empty()) ops.push_back({'P', i, 0, 0});
        ops.push_back({'N', i, 0, 0});
    }
#ifndef DEEP
    // large layers: all sequences of 2 (3) operations on one of them, every run of every other layer before and after
    std::vector<Op> lops, lruns; for (auto &o : ops) if (o.layer >= (int) small) { lops.push_back(o); if (o.kind == 'R') lruns.push_back(o); }
    for (auto &a : lruns) seq({a});
    for (auto &a : lops) for (auto &b : lruns) if (a.layer == b.layer) { seq({a, b}); for (auto &c : lruns) if (c.layer == a.layer && (mc::thorough || b.v != c.v || b.d != c.d)) seq({a, b, c}); }
    for (auto &a : lruns) for (auto &b : lruns) if (a.layer != b.layer && (mc::thorough || (a.d == 0 && b.d == 1))) seq({a, b});
    { auto keep = [&](std::vector<Op> &v) { std::vector<Op> t; for (auto &o : v) if (o.layer < (int) small) t.push_back(o); v = t; }; keep(ops); keep(runs); }
#endif
    for (auto &a : runs) seq({a});
    for (auto &a : ops) for (auto &b : runs) seq({a, b});
#ifdef DEEP
    for (auto &a : ops) for (auto &b : ops) for (auto &c : runs) seq({a, b, c});
    // every pair of layers: all sequences over their operations
    int D = mc::thorough ? 5 : 4;
    for (int i = 0; i < (int) Z.size(); i++) for (int j = i; j < (int) Z.size(); j++) {
        std::vector<Op> sub; for (auto &o : ops) if (o.layer == i || o.layer == j) sub.push_back(o);
        if (i != j && !mc::thorough) {                             // quick: second layer contributes its runs on the first data only
            std::vector<Op> t; for (auto &o : sub) if (o.layer == i || (o.kind == 'R' && o.d == 0)) t.push_back(o); sub = t;
        }
        Odo o(std::vector<uint32_t>(D, sub.size()));
        for (bool g = true; g; g = o.next()) { if (sub[o.v[D - 1]].kind != 'R') continue; std::vector<Op> q; for (auto k : o.v) q.push_back(sub[k]); seq(q); }
    }
#else
    for (auto &a : runs) for (auto &b : runs) if (a.layer == b.layer || (a.layer + b.layer) % 7 == 0) repeat(a, b, mc::thorough ? 2000 : 600);
    // all length-3 sequences around one layer of every class, with every other layer's run in between
    for (auto &a : ops) for (auto &b : ops) for (auto &c : runs) if (a.layer == c.layer && (mc::thorough || b.kind == 'R')) seq({a, b, c});
#endif
}

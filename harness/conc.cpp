// E03: layers run concurrently; every interleaving up to a preemption bound, with conflict detection on every access.
#include "zoo.h"
#include "ctl_sched.h"
MC_RULE("one case per scenario (which layers, what they share); in each, every schedule with at most the stated number of preemptions at accesses to memory touched by more than one thread is executed on the real instrumented code; every access is checked for unordered conflicts; states are distinct (scenario, result) digests; transitions are schedules executed");

static std::vector<float> expected(const Spec &s, bool second, uint32_t psalt, uint32_t isalt) {
    int fd[2]; if (pipe(fd)) abort();
    const Shape &os = second ? s.out2 : s.out;
    pid_t p = fork();
    if (p == 0) {
        auto pr = make_params(s, psalt); TP in = make(second ? s.in2 : s.in), out = make(os); fill(in.get(), isalt, 6); fill_const(out.get(), GARBAGE);
        Arr a(s.a), b(s.b), c(s.c); Obj o = s.make(raw(pr), a.p, b.p, c.p); o.run(in.get(), out.get());
        auto v = snap(out.get()); if (write(fd[1], v.data(), v.size() * 4) < 0) {} _exit(0);
    }
    close(fd[1]); std::vector<float> r(nelem(os)); size_t got = 0; ssize_t k;
    while (got < r.size() * 4 && (k = read(fd[0], (char *) r.data() + got, r.size() * 4 - got)) > 0) got += k;
    close(fd[0]); int st; waitpid(p, &st, 0); return r;
}
struct Arm {                                     // one thread's work
    const Spec *s; bool second = false; uint32_t psalt = 1, isalt = 1; int obj = 0, par = 0, inp = 0; bool life = false; int times = 1;
};
static uint64_t total_schedules = 0;
static void scenario(const std::vector<Arm> &arms, int bound, const char *what) {
    for (auto &a : arms) if (a.second && a.s->in2.empty()) return;
    if (!mc::take()) return;
    auto d = [&] {
        std::string r = std::string(what) + ", at most " + std::to_string(bound) + " preemption(s):"; int i = 0;
        for (auto &a : arms) r += " [thread " + std::to_string(i++) + ": " + (a.life ? "build, run, destroy " : "run ") + a.s->name + (a.second ? " (second shape)" : "") + " object " + std::to_string(a.obj) + " params " + std::to_string(a.par) + " input " + std::to_string(a.inp) + "]";
        return r;
    };
    MC_CASE(d);
    size_t n = arms.size();
    std::vector<std::vector<float>> want; for (auto &a : arms) want.push_back(expected(*a.s, a.second, a.psalt, a.isalt));
    std::map<int, std::vector<TP>> par; std::map<int, Obj> obj; std::map<int, TP> inp; std::vector<TP> out; std::vector<Arr *> arrs;
    std::vector<Arr *> A, B, C;
    for (auto &a : arms) {
        if (!par.count(a.par)) par[a.par] = make_params(*a.s, a.psalt);
        if (!inp.count(a.inp)) { inp[a.inp] = make(a.second ? a.s->in2 : a.s->in); fill(inp[a.inp].get(), a.isalt, 6); }
        A.push_back(new Arr(a.s->a)); B.push_back(new Arr(a.s->b)); C.push_back(new Arr(a.s->c));
        if (!a.life && !obj.count(a.obj)) obj[a.obj] = a.s->make(raw(par[a.par]), A.back()->p, B.back()->p, C.back()->p);
        out.push_back(make(a.second ? a.s->out2 : a.s->out));
    }
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < n; i++) {
        const Arm &a = arms[i]; Tensor *in = inp[a.inp].get(), *o = out[i].get();
        auto *pp = new std::vector<Tensor *>(raw(par[a.par])); arrs.push_back(nullptr);
        if (a.life) { uint32_t *x = A[i]->p, *y = B[i]->p, *z = C[i]->p; bodies.push_back([&a, in, o, pp, x, y, z] { for (int k = 0; k < a.times; k++) { Obj ob = a.s->make(*pp, x, y, z); ob.run(in, o); ob.destroy(); } }); }
        else { Obj *ob = &obj[a.obj]; bodies.push_back([&a, in, o, ob] { for (int k = 0; k < a.times; k++) ob->run(in, o); }); }
    }
    bool failed = false;
    sched::explore(bodies, bound,
        [&] { for (auto &o : out) fill_const(o.get(), GARBAGE); },
        [&] {
            mc::step();
            if (!sched::race.empty()) { mc::fail("conflicting unsynchronised access: " + sched::race + " (" + sched::schedule_str() + ")"); failed = true; return false; }
            if (sched::deadlock) { mc::fail("deadlock (" + sched::schedule_str() + ")"); failed = true; return false; }
            for (size_t i = 0; i < n; i++) if (!same_bits(out[i].get(), want[i])) {
                auto g = snap(out[i].get()); size_t k = 0; while (k < g.size() && !memcmp(&g[k], &want[i][k], 4)) k++;
                mc::fail("thread " + std::to_string(i) + "'s output element " + std::to_string(k) + " is " + fstr(g[k]) + ", sequentially " + fstr(want[i][k]) + " (" + sched::schedule_str() + ")"); failed = true; return false;
            }
            mc::check(n);
            return true;
        }, 1ull << 40);
    mc::count("monitored_accesses", sched::n_access); sched::n_access = 0;
    mc::count("scheduling_points", sched::n_points); sched::n_points = 0;
    if (sched::deadlock) return;
    uint64_t h = 7; for (auto &o : out) h = mc::mix(h ^ digest(o.get())); mc::outcome(h ^ mc::hash_bytes(what, strlen(what)));
    for (auto &o : obj) o.second.destroy();
    for (size_t i = 0; i < n; i++) { delete A[i]; delete B[i]; delete C[i]; }
    (void) failed;
}
static std::vector<Spec> Z;
void mc::explore() {
    Z = {
        conv2("conv2d", {1,2,2,2}, 2, 1, 3, 1, {1,1}, {1,0,1,0}, true, {1,2,3,1}),
        conv2("conv2d-nopad", {1,2,1,3}, 2, 2, 1, 3, {1,1}, {}, false, {1,2,1,4}),
        conv1("conv1d", {1,2,3}, 2, 1, 3, 1, {1,0}, true, {1,2,4}),
        pool("maxpool2d", 0, {1,1,2,3}, {2,2}, {1,1}, {1,0,0,0}, {1,1,2,2}), pool("maxpool1d", 0, {1,2,3}, {2}, {1}, {}, {1,1,4}),
        pool("avgpool2d", 2, {1,1,2,3}, {2,2}, {1,1}, {1,0,0,1}, {1,1,2,2}), pool("avgpool1d", 1, {1,2,3}, {2}, {1}, {}),
        gpool("globalmax", false, {1,2,2,2}, {1,2,3}), gpool("globalavg", true, {1,2,2,2}, {1,2,3}),
        fc("fc", 3, 2, true), matmul("matmul", 3, 2), bnorm("batchnorm", {1,2,1,2}, 1e-3f, {1,2,2}),
        act("relu", A_RELU, {1,4}, {1,2,2}), act("leakyrelu", A_LEAKY, {1,4}, {1,2,2}), act("prelu", A_PRELU, {1,3}), act("clip", A_CLIP, {1,4}, {1,2,2}),
        act("sigmoid", A_SIGMOID, {1,4}, {1,2,2}), act("tanh", A_TANH, {1,4}, {1,2,2}), act("softmax", A_SOFTMAX, {1,4}, {1,2,2}), act("lrn", A_LRN, {1,3,1,2}, {1,2,2,1}),
    };
    int PB = mc::thorough ? 2 : 1;
    for (auto &s : Z) {
        Arm a; a.s = &s; Arm b = a;
        scenario({a, b}, PB, "same object, same input");
        b.inp = 1; b.isalt = 9; scenario({a, b}, PB, "same object, different inputs");
        b.second = true; scenario({a, b}, PB, "same object, inputs of different shape");
        b = a; b.obj = 1; scenario({a, b}, PB, "two objects sharing parameters and input");
        b.inp = 1; b.isalt = 9; scenario({a, b}, PB, "two objects sharing parameters");
        b.par = 1; b.psalt = 2; scenario({a, b}, PB, "two unrelated objects");
        b = a; b.obj = 1; a.life = b.life = true; scenario({a, b}, PB, "built, run and destroyed in both threads");
        a.life = false; a.times = 2; scenario({a, b}, PB, "running twice while the other thread builds, runs and destroys");
        a.times = b.times = 1; b.life = false; Arm c = a; b.obj = 0; b.inp = 1; b.isalt = 9; c.inp = 2; c.isalt = 17; c.obj = 0;
        scenario({a, b, c}, 1, "three threads on the same object");
    }
    // large shapes: an unordered conflict shows in the schedule without preemptions already
    static std::vector<Spec> L = large_zoo();
    for (auto &s : L) {
        Arm a; a.s = &s; Arm b = a; b.inp = 1; b.isalt = 9;
        scenario({a, b}, 0, "same object, different inputs");
        b.second = true; scenario({a, b}, 0, "same object, inputs of different shape");
        b.second = false; b.obj = 1; b.par = 1; b.psalt = 2; scenario({a, b}, 0, "two unrelated objects");
        a.life = b.life = true; scenario({a, b}, 0, "built, run and destroyed in both threads");
    }
    // every pair of layer classes side by side, sharing the input tensor where the shapes agree
    for (size_t i = 0; i < Z.size(); i++) for (size_t j = i + 1; j < Z.size(); j++) {
        Arm a, b; a.s = &Z[i]; b.s = &Z[j]; b.obj = b.par = 1; b.psalt = 2;
        if (Z[i].in != Z[j].in) { b.inp = 1; b.isalt = 5; }
        scenario({a, b}, PB, "different layers");
    }
}

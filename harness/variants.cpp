// E05: the same operations on the library built in different configurations (vlib.cpp, one shared object each).
#include "mc.h"
#include <dlfcn.h>
#include <cmath>
MC_RULE("one case per (operation, build configuration): the operation is executed by that build and by the reference build (-O0, no output), each in a process of its own, and all results, return codes and exit codes are compared; states are distinct result digests");
struct Lib { std::string name; int (*init)(int, uint64_t, const char *); const char *(*nm)(int); size_t (*run)(int, double *, int *, size_t); void (*scratch)(const char *); };
static std::vector<Lib> libs; static const size_t CAP = 1 << 17;
struct Shm { size_t n; double v[CAP]; int e[CAP]; };
static Shm *shm;
static int exec(Lib &l, int k, std::vector<double> &v, std::vector<int> &e) {
    shm->n = ~(size_t) 0;
    int st = mc::isolated([&] {
        // output is really formatted, so that what is printed is really evaluated
        std::ostringstream o1, o2; std::cout.rdbuf(o1.rdbuf()); std::cout.clear(); std::cerr.rdbuf(o2.rdbuf()); std::cerr.clear();
        l.scratch(mc::scratch.c_str());
        shm->n = l.run(k, shm->v, shm->e, CAP); std::cout.rdbuf(nullptr); return 0;
    }, 30);
    size_t n = shm->n == ~(size_t) 0 ? 0 : std::min(CAP, shm->n);
    v.assign(shm->v, shm->v + n); e.assign(shm->e, shm->e + n);
    return shm->n == ~(size_t) 0 && st == 0 ? 1 : st;
}
void mc::explore() {
    std::istringstream is(VARIANTS); std::string path, name; int count = -1;
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while (std::getline(is, path, '|')) {
        std::getline(is, name, '|');
        void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); }
        Lib l{name, (int (*)(int, uint64_t, const char *)) dlsym(h, "vl_init"), (const char *(*)(int)) dlsym(h, "vl_name"), (size_t (*)(int, double *, int *, size_t)) dlsym(h, "vl_run"), (void (*)(const char *)) dlsym(h, "vl_scratch")};
        int n = l.init(mc::thorough, mc::seed, "/nonexistent"); if (count >= 0 && n != count) abort(); count = n; libs.push_back(l);
    }
    int have = -1, st0 = 0; std::vector<double> v0, v; std::vector<int> e0, e;
    for (int k = 0; k < count; k++) for (size_t l = 1; l < libs.size(); l++) {
        if (!mc::take()) continue;
        auto d = [&] { return std::string(libs[l].nm(k)) + " with " + libs[l].name; }; MC_CASE(d);
        if (have != k) { st0 = exec(libs[0], k, v0, e0); have = k; mc::step(); }
        int st = exec(libs[l], k, v, e); mc::step();
        auto code = [](int s) { return s < 0 ? "signal " + std::to_string(-s) : "exit status " + std::to_string(s); };
        if (st != st0) { mc::fail("ends with " + code(st) + ", the plain build with " + code(st0)); continue; }
        if (v.size() != v0.size()) { mc::fail("delivers " + std::to_string(v.size()) + " results, the plain build " + std::to_string(v0.size())); continue; }
        for (size_t i = 0; i < v.size(); i++) {
            bool same = e0[i] ? v[i] == v0[i] : std::isnan(v0[i]) ? std::isnan(v[i]) : std::isinf(v0[i]) ? v[i] == v0[i] : std::fabs(v[i] - v0[i]) <= 1e-6 + 1e-5 * std::fabs(v0[i]);
            if (!same) { char b[160]; snprintf(b, sizeof b, "result %zu of %zu is %.9g, the plain build gives %.9g", i, v.size(), v[i], v0[i]); mc::fail(b); break; }
        }
        mc::check(v.size() + 1); mc::outcome(mc::hash_bytes(v0.data(), v0.size() * 8, k));
    }
}

// usage: exe SCENARIOS      N10: networks used by several threads; every schedule up to a preemption bound, one result line per scenario
//   case <idx> <bound> ; arm <kind> <network> <weights> <data> ; end
// kinds: run (an existing network, twice), life (create, load, run, destroy), load (weights into an existing network), make (create, destroy)
#include "nrt.h"
#include "ctl_sched.h"
namespace nrt { std::map<int, Maker> &makers() { static std::map<int, Maker> m; return m; } }
using namespace nrt;
extern "C" { FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_fgetc(FILE *); char *__real_fgets(char *, int, FILE *);
char *__real_strtok(char *, const char *); int __real_rand(void); void __real_srand(unsigned); int __real_fseek(FILE *, long, int); char *__real_getenv(const char *); char *__real_setlocale(int, const char *); struct tm *__real_localtime(const time_t *);
// library calls are scheduling points, so that state kept inside the C library between calls (strtok, a shared FILE) is exercised too
static void lib() { if(sched::mine()) { sched::In in; sched::point(); } }
FILE *__wrap_fopen(const char *a, const char *b) { lib(); return __real_fopen(a, b); }
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { lib(); size_t r = __real_fread(p, a, b, f); if(r && a) sched::access((uintptr_t)p, r * a, true); return r; }
int __wrap_fclose(FILE *f) { lib(); return __real_fclose(f); }
int __wrap_fgetc(FILE *f) { lib(); return __real_fgetc(f); }
char *__wrap_fgets(char *s, int n, FILE *f) { lib(); return __real_fgets(s, n, f); }
char *__wrap_strtok(char *s, const char *d) { lib(); return __real_strtok(s, d); }
int __wrap_rand(void) { lib(); return __real_rand(); }
void __wrap_srand(unsigned s) { lib(); __real_srand(s); }
int __wrap_fseek(FILE *f, long o, int w) { lib(); return __real_fseek(f, o, w); }
}
struct Data { std::vector<int32_t> id, od; double tol; std::vector<float> in; std::vector<double> exp; };
static Data read_data(const std::string &p) {
    FILE *f = __real_fopen(p.c_str(), "rb"); if(!f) { fprintf(stderr, "no data %s\n", p.c_str()); _exit(8); }
    Data d; int32_t r; size_t n = 1, ok = 1;
    ok &= __real_fread(&r, 4, 1, f) == 1; d.id.resize(r); ok &= __real_fread(d.id.data(), 4, r, f) == (size_t)r; for(int32_t v : d.id) n *= v; d.in.resize(n);
    ok &= __real_fread(&r, 4, 1, f) == 1; d.od.resize(r); ok &= __real_fread(d.od.data(), 4, r, f) == (size_t)r; n = 1; for(int32_t v : d.od) n *= v; d.exp.resize(n);
    ok &= __real_fread(&d.tol, 8, 1, f) == 1; ok &= __real_fread(d.in.data(), 4, d.in.size(), f) == d.in.size(); ok &= __real_fread(d.exp.data(), 8, n, f) == n; __real_fclose(f);
    if(!ok) { fprintf(stderr, "bad data %s\n", p.c_str()); _exit(8); }
    return d;
}
static Tensor *mk(const std::vector<int32_t> &d) {
    switch(d.size()) { case 1: return new Tensor(d[0]); case 2: return new Tensor(d[0], d[1]); case 3: return new Tensor(d[0], d[1], d[2]); default: return new Tensor(d[0], d[1], d[2], d[3]); }
}
static const float NANV = std::nanf("1");
static std::vector<uint32_t> params(Net *n) { std::vector<uint32_t> v; for(int k = 0; k < 2; k++) for(Tensor **p = k ? *n->biases() : *n->kernels(); *p; p++) for(uint32_t i = 0; i < (*p)->num_elements(); i++) { float f = (*p)->access_blob(i); uint32_t u; memcpy(&u, &f, 4); v.push_back(u); } return v; }
static void poison(Net *n) { for(int k = 0; k < 2; k++) for(Tensor **p = k ? *n->biases() : *n->kernels(); *p; p++) for(uint32_t i = 0; i < (*p)->num_elements(); i++) (*p)->access_blob(i) = NANV; }
struct Arm { std::string kind; int net; std::string weights, data; Data d; Net *n = nullptr; Tensor *in = nullptr, *out = nullptr; int rc = 0; std::vector<uint32_t> want; };
static int cur; static int ofd;
static void emit(const std::string &s) { size_t o = 0; while(o < s.size()) { ssize_t n = write(ofd, s.data() + o, s.size() - o); if(n <= 0) _exit(9); o += n; } }
static void scenario(std::vector<Arm> &arms, int bound) {
    static uint64_t schedules = 0, checks = 0; uint64_t hash = 1469598103934665603ull;
    std::vector<std::function<void()>> bodies;
    for(Arm &a : arms) {
        a.d = read_data(a.data); a.in = mk(a.d.id); a.out = mk(a.d.od);
        for(size_t i = 0; i < a.d.in.size(); i++) a.in->access_blob(i) = a.d.in[i];
        Arm *p = &a; Maker make = makers()[a.net];
        if(a.kind == "run" || a.kind == "load") { a.n = make(); if(read_binary_weights(a.weights.c_str(), a.n->kernels(), a.n->biases())) { emit("F " + std::to_string(cur) + " loading the weights failed\n"); _exit(3); } a.want = params(a.n); }
        if(a.kind == "run") bodies.push_back([p] { p->n->run(p->in, p->out); p->n->run(p->in, p->out); });
        else if(a.kind == "load") bodies.push_back([p] { p->rc = read_binary_weights(p->weights.c_str(), p->n->kernels(), p->n->biases()); });
        else if(a.kind == "make") bodies.push_back([make] { Net *n = make(); delete n; });
        else bodies.push_back([p, make] { Net *n = make(); p->rc = read_binary_weights(p->weights.c_str(), n->kernels(), n->biases()); n->run(p->in, p->out); delete n; });
    }
    std::string err;
    sched::explore(bodies, bound,
        [&] { for(Arm &a : arms) { a.rc = 0; for(size_t i = 0; i < a.d.exp.size(); i++) a.out->access_blob(i) = NANV; if(a.kind == "load") poison(a.n); } },
        [&] {
            schedules++;
            if(!sched::race.empty()) { err = "conflicting unsynchronised access: " + sched::race; return false; }
            if(sched::deadlock) { err = "deadlock"; return false; }
            for(size_t t = 0; t < arms.size(); t++) {
                Arm &a = arms[t]; std::string th = "thread " + std::to_string(t) + " (" + a.kind + "): ";
                if(a.rc) { err = th + "loading the weights returned " + std::to_string(a.rc); return false; }
                if(a.kind == "load") { checks++; if(params(a.n) != a.want) { err = th + "the loaded parameters are not those of the file"; return false; } continue; }
                if(a.kind == "make") continue;
                for(size_t i = 0; i < a.d.exp.size(); i++) {
                    checks++; float f = a.out->access_blob(i); double e = a.d.exp[i]; uint32_t u; memcpy(&u, &f, 4); hash = (hash ^ u) * 1099511628211ull;
                    bool ok = std::isnan(e) ? std::isnan(f) : std::isinf(e) ? (double)f == e : std::fabs((double)f - e) <= a.d.tol;
                    if(!ok) { char b[200]; snprintf(b, sizeof b, "output[%zu] is %.9g, the model gives %.9g", i, f, e); err = th + b; return false; }
                }
            }
            return true;
        }, 1ull << 40);
    if(!err.empty()) { emit("F " + std::to_string(cur) + " " + err + " (" + sched::schedule_str().substr(0, 300) + ")\n"); _exit(3); }
    char o[200]; snprintf(o, sizeof o, "P %d %llu %llu %llx %llu\n", cur, (unsigned long long)schedules, (unsigned long long)checks, (unsigned long long)hash, (unsigned long long)sched::n_access); emit(o);
}
int main(int, char **argv) {
    std::ifstream f(argv[1]); std::string line; std::vector<Arm> arms; int bound = 1, hangs = 0; ofd = dup(1);
    while(std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if(w == "case") { is >> cur >> bound; arms.clear(); }
        else if(w == "arm") { Arm a; is >> a.kind >> a.net >> a.weights >> a.data; arms.push_back(a); }
        else if(w == "end") {
            int ep[2]; if(pipe(ep)) return 8;
            pid_t p = fork();
            if(p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(ep[1], 2); close(ep[0]); alarm(100); scenario(arms, bound); _exit(0); }
            close(ep[1]); std::string err; char buf[4096]; ssize_t n; while((n = read(ep[0], buf, sizeof buf)) > 0) if(err.size() < 4000) err.append(buf, n);
            close(ep[0]); int st; waitpid(p, &st, 0);
            if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs >= 2) { emit("F " + std::to_string(cur) + " does not end\nS\n"); return 0; }
            if(!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3))) {
                for(char &c : err) if(c == '\n') c = ' ';
                char o[100]; snprintf(o, sizeof o, "F %d ended with %s %d: ", cur, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); emit(o + err.substr(0, 200) + "\n");
            }
        }
    }
    return 0;
}

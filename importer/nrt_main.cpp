#include <csignal>
// usage: exe CASES      executes the scripts of file CASES; one result line per case on stdout
//   case <idx> / new <slot> <model> / load <slot> <weights file> / run <slot> <data file> / del <slot> / twice / end
// data file: int32 in_rank, in dims.., int32 out_rank, out dims.., double tol, float in[], double expected[], uint8 defined[]
#include "nrt.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace nrt { std::map<int, Maker> &makers() { static std::map<int, Maker> m; return m; } }
using namespace nrt;
static const uint32_t POISON = 0x7fc5a5a5u;
static long steps, checks; static uint64_t hash_ = 1469598103934665603ull;
static void die(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
static int report_fd = 1;
static void emit(const std::string &s) { size_t o = 0; while(o < s.size()) { ssize_t n = write(report_fd, s.data() + o, s.size() - o); if(n <= 0) _exit(9); o += n; } }
static int cur;
static char label[400];                 // the operation sequence being executed, for messages
static void on_death() { if(label[0]) { std::string m = std::string("\nSEQUENCE ") + label + "\n"; if(write(2, m.data(), m.size())) {} } }
static void die(const char *f, ...) {
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    for(char *p = b; *p; p++) if(*p == '\n') *p = ' ';
    char l[1200]; snprintf(l, sizeof l, "F %d %s%s%s\n", cur, label[0] ? label : "", label[0] ? ": " : "", b); emit(l); _exit(3);
}
struct Data { std::vector<int32_t> id, od; double tol; std::vector<float> in; std::vector<double> exp; std::vector<uint8_t> def; };
static std::map<std::string, Data> datas;
static Data &data(const std::string &p) {
    auto it = datas.find(p);
    if(it != datas.end()) return it->second;
    FILE *f = fopen(p.c_str(), "rb"); if(!f) { fprintf(stderr, "no data %s\n", p.c_str()); _exit(8); }
    Data d; int32_t r; size_t n = 1, ok = 1;
    ok &= fread(&r, 4, 1, f) == 1; d.id.resize(r); ok &= fread(d.id.data(), 4, r, f) == (size_t)r; for(int32_t v : d.id) n *= v; d.in.resize(n);
    ok &= fread(&r, 4, 1, f) == 1; d.od.resize(r); ok &= fread(d.od.data(), 4, r, f) == (size_t)r; n = 1; for(int32_t v : d.od) n *= v; d.exp.resize(n); d.def.resize(n);
    ok &= fread(&d.tol, 8, 1, f) == 1; ok &= fread(d.in.data(), 4, d.in.size(), f) == d.in.size();
    ok &= fread(d.exp.data(), 8, n, f) == n; ok &= fread(d.def.data(), 1, n, f) == n; fclose(f);
    if(!ok) { fprintf(stderr, "bad data %s\n", p.c_str()); _exit(8); }
    return datas[p] = d;
}
static Tensor *mk(const std::vector<int32_t> &d) {
    switch(d.size()) {
        case 1: return new Tensor(d[0]); case 2: return new Tensor(d[0], d[1]); case 3: return new Tensor(d[0], d[1], d[2]);
        default: return new Tensor(d[0], d[1], d[2], d[3]);
    }
}
static std::vector<uint32_t> snapshot(Net *n) {
    std::vector<uint32_t> v;
    for(int k = 0; k < 2; k++) { Tensor **p = k ? *n->biases() : *n->kernels(); for(; *p; p++) for(uint32_t i = 0; i < (*p)->num_elements(); i++) { float f = (*p)->access_blob(i); uint32_t u; memcpy(&u, &f, 4); v.push_back(u); } }
    return v;
}
typedef std::vector<std::string> Line;
static std::map<std::pair<int, std::string>, std::vector<uint32_t>> first;      // bits of the first run of (network, data)
static void script(const std::vector<Line> &ls) {
    int slotid[4] = {0, 0, 0, 0};
    Net *slot[4] = {0, 0, 0, 0}; bool loaded[4] = {0, 0, 0, 0};
    for(size_t li = 0; li < ls.size(); li++) {
        const Line &l = ls[li]; steps++;
        int s = l.size() > 1 ? atoi(l[1].c_str()) : 0;
        if(l[0] == "seq") { label[0] = 0; for(size_t i = 1; i < l.size(); i++) { strncat(label, l[i].c_str(), sizeof label - strlen(label) - 2); strcat(label, i + 1 < l.size() ? " " : ""); } for(int i = 0; i < 4; i++) { delete slot[i]; slot[i] = 0; } continue; }
        if(l[0] == "new") { delete slot[s]; slotid[s] = atoi(l[2].c_str()); slot[s] = makers()[atoi(l[2].c_str())](); loaded[s] = false; }
        else if(l[0] == "load") {
            float nan; memcpy(&nan, &POISON, 4);
            if(!loaded[s]) for(int k = 0; k < 2; k++) { Tensor **p = k ? *slot[s]->biases() : *slot[s]->kernels(); for(; *p; p++) for(uint32_t i = 0; i < (*p)->num_elements(); i++) (*p)->access_blob(i) = nan; }
            int rc = read_binary_weights(l[2].c_str(), slot[s]->kernels(), slot[s]->biases());
            if(rc != 0) die("step %zu: loading the weights file returned %d", li, rc);
            std::vector<uint32_t> v = snapshot(slot[s]);
            for(size_t i = 0; i < v.size(); i++) { checks++; if(v[i] == POISON) die("step %zu: parameter value %zu of %zu was not set by loading the weights file", li, i, v.size()); }
            loaded[s] = true;
        } else if(l[0] == "params") {           // the loaded parameters, as a multiset, are the parameters of the model
            FILE *f = fopen(l[2].c_str(), "rb"); if(!f) _exit(8);
            std::vector<std::vector<float>> want, got; int32_t n;
            while(fread(&n, 4, 1, f) == 1) { std::vector<float> v(n); if(fread(v.data(), 4, n, f) != (size_t)n) _exit(8); want.push_back(v); }
            fclose(f);
            for(int k = 0; k < 2; k++) for(Tensor **p = k ? *slot[s]->biases() : *slot[s]->kernels(); *p; p++) { std::vector<float> v; for(uint32_t i = 0; i < (*p)->num_elements(); i++) v.push_back((*p)->access_blob(i)); got.push_back(v); checks++; }
            std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
            if(want.size() != got.size()) die("step %zu: the network has %zu parameter tensors, the model %zu parameters", li, got.size(), want.size());
            for(size_t i = 0; i < want.size(); i++) if(want[i] != got[i]) die("step %zu: no parameter tensor holds the parameter starting %.9g (%zu values); one holds %zu values starting %.9g", li, want[i].empty() ? 0 : want[i][0], want[i].size(), got[i].size(), got[i].empty() ? 0 : got[i][0]);
        } else if(l[0] == "run") {
            Data &d = data(l[2]);
            Tensor *in = mk(d.id), *out = mk(d.od);
            for(size_t i = 0; i < d.in.size(); i++) in->access_blob(i) = d.in[i];
            float nan; memcpy(&nan, &POISON, 4);
            for(size_t i = 0; i < d.exp.size(); i++) out->access_blob(i) = nan;
            std::vector<uint32_t> before = snapshot(slot[s]);
            slot[s]->run(in, out);
            if(snapshot(slot[s]) != before) die("step %zu: run changed a parameter tensor", li);
            for(size_t i = 0; i < d.in.size(); i++) { checks++; float f = in->access_blob(i); if(memcmp(&f, &d.in[i], 4)) die("step %zu: run changed input element %zu: %.9g -> %.9g", li, i, d.in[i], f); }
            for(size_t i = 0; i < d.exp.size(); i++) {
                if(!d.def[i]) continue;
                checks++; float f = out->access_blob(i);
                uint32_t u; memcpy(&u, &f, 4); hash_ = (hash_ ^ u) * 1099511628211ull;
                bool ok = std::isnan(d.exp[i]) ? std::isnan(f) : std::isinf(d.exp[i]) ? (double)f == d.exp[i] : std::fabs((double)f - d.exp[i]) <= d.tol;
                if(!ok) die("step %zu: output[%zu] of %zu is %.9g, the model gives %.9g", li, i, d.exp.size(), f, d.exp[i]);
            }
            std::vector<uint32_t> &fb = first[std::make_pair(slotid[s], l[2])];
            bool fresh = fb.empty();
            for(size_t i = 0; i < d.exp.size(); i++) {
                float f = out->access_blob(i); uint32_t u; memcpy(&u, &f, 4);
                if(fresh) fb.push_back(u); else if(fb[i] != u && d.def[i]) die("step %zu: output[%zu] is %.9g, an earlier run of the same network on the same data gave other bits", li, i, f);
            }
            delete in; delete out;
        } else if(l[0] == "del") { delete slot[s]; slot[s] = 0; }
    }
    for(int i = 0; i < 4; i++) if(slot[i]) delete slot[i];
}
int main(int argc, char **argv) {
    std::ifstream f(argv[1]); std::string line; std::vector<Line> ls; bool leak = true; int hangs = 0;
    int keep = dup(1); report_fd = keep;
    while(std::getline(f, line)) {
        std::istringstream is(line); Line l; std::string w; while(is >> w) l.push_back(w);
        if(l.empty()) continue;
        if(l[0] == "case") { cur = atoi(l[1].c_str()); ls.clear(); continue; }
        if(l[0] != "end") { ls.push_back(l); continue; }
        int ep[2]; if(pipe(ep)) return 8;
        pid_t p = fork();
        if(p == 0) {
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(ep[1], 2); close(ep[0]); alarm(ls.size() > 5000 ? 500 : 60);
            __sanitizer_set_death_callback(on_death);
            for(auto &x : ls) if(x[0] == "run") data(x[2]);
            script(ls);
            size_t a = __sanitizer_get_current_allocated_bytes(), st = steps;
            script(ls);
            size_t b = __sanitizer_get_current_allocated_bytes();
            if(leak && a != b) die("memory in use after the script grew by %zd bytes", (ssize_t)(b - a));
            steps = st * 2;
            char o[200]; snprintf(o, sizeof o, "P %d %ld %ld %llx\n", cur, steps, checks, (unsigned long long)hash_); emit(o); _exit(0);
        }
        close(ep[1]); std::string err; char buf[4096]; ssize_t n;
        while((n = read(ep[0], buf, sizeof buf)) > 0) if(err.size() < 60000) err.append(buf, n);
        close(ep[0]);
        int st; waitpid(p, &st, 0);
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs >= 2) { char o[80]; snprintf(o, sizeof o, "F %d does not end\nS\n", cur); emit(o); return 0; }   // the rest is skipped
        if(!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3))) {
            std::string why; size_t q = err.find("ERROR: AddressSanitizer"); if(q == std::string::npos) q = err.find("runtime error"); if(q == std::string::npos) q = err.find("AddressSanitizer");
            why = q == std::string::npos ? err.substr(0, 200) : err.substr(q, 200);
            q = err.find("    #"); int k = 0; while(q != std::string::npos && k < 60) { size_t e = err.find('\n', q); std::string fr = err.substr(q, e - q); if(fr.find("pico-cnn") != std::string::npos || fr.find("network") != std::string::npos) { why += " |" + fr.substr(0, 160); break; } q = err.find("    #", e); k++; }
            for(char &c : why) if(c == '\n') c = ' ';
            size_t sq = err.rfind("\nSEQUENCE "); if(sq != std::string::npos) { std::string m = err.substr(sq + 10); why = "in " + m.substr(0, m.find('\n')) + ": " + why; }
            char o[80]; snprintf(o, sizeof o, "F %d ended with %s %d: ", cur, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); emit(o + why + "\n");
        }
    }
    return 0;
}

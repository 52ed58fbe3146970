// Bounded exhaustive exploration runtime.
//
// A harness is a deterministic enumeration of cases: explore() calls mc::take() once per case; take() returns
// true when this process must execute that case.  The parent process splits the enumeration over N worker
// processes (round robin), watches for crashes, exits and hangs of the code under test, attributes them to the
// case that was executing, re-runs every failing case alone in a fresh process before it is reported, and prints
// one JSON object with the measured coverage.
//
//   harness --tier quick|thorough [--jobs N] [--only IDX] [--max-viol N]
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <filesystem>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#ifndef MC_NO_MAIN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=4:detect_odr_violation=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:max_free_fill_size=65536:free_fill_byte=219:max_allocation_size_mb=2048"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=98:print_stacktrace=0"; }
#endif
#endif

namespace mc {

struct Shared {                      // one per worker, in shared memory
    volatile uint64_t cur;           // case being executed (+1), 0 = none
    volatile uint64_t taken;         // executed cases
    volatile uint64_t total;         // enumerated cases
    volatile uint64_t checks;        // individual comparisons made
    volatile uint64_t steps;         // transitions (operations executed on the real code)
    volatile uint32_t done;
    volatile uint32_t nviol;
};

static Shared *sh = nullptr;
static uint64_t counter = 0, start_at = 0;
static int shard = 0, nshards = 1;
static bool thorough = false;
static bool only_mode = false;
static uint64_t only_idx = 0;
static bool history = false;         // only_mode variant: also execute the shard's earlier cases in the same process
static uint64_t fail_in_case = 0;
static bool in_target = false;
static std::string tier = "quick";
static std::unordered_set<uint64_t> outcomes;
static size_t outcomes_cap = 4000000;
static int viol_fd = -1;
static uint64_t seed = 1;
static std::string scratch;          // private scratch directory of this worker
static std::map<std::string, uint64_t> counters;   // extra named counters, summed over workers

static void (*desc_fn)(void *, std::string &) = nullptr;
static void *desc_obj = nullptr;

template <class F> inline void describe(F &f) {
    desc_obj = (void *) &f;
    desc_fn = [](void *o, std::string &s) { s = (*(F *) o)(); };
}
inline std::string description() {
    std::string s;
    if (desc_fn) desc_fn(desc_obj, s);
    return s;
}

static const uint64_t SAMPLE_EVERY = 1;
static std::vector<std::string> samples;

inline bool take() {
    uint64_t idx = counter++;
    desc_fn = nullptr;
    if (only_mode && !history) { if (idx != only_idx) return false; }
    else if (only_mode) {
        if (idx > only_idx || idx % nshards != (uint64_t) shard) return false;
        if (idx == only_idx) in_target = true;
    } else {
        if (idx % nshards != (uint64_t) shard || idx < start_at) return false;
        sh->cur = idx + 1;
    }
    fail_in_case = 0;
    sh->taken = sh->taken + 1;
    return true;
}

// Optional early-out: is any case in [counter, counter+n) ours?  If not, skips them all.
inline bool skip(uint64_t n) {
    if (only_mode) { if (only_idx < counter || only_idx >= counter + n) { counter += n; return true; } return false; }
    return false;
}

static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r;
}

inline void fail(const std::string &msg) {
    if (history && !in_target) return;
    if (fail_in_case++) return;      // first failure of a case is enough
    std::string line = "{\"idx\":" + std::to_string(counter - 1) + ",\"desc\":\"" + esc(description()) + "\",\"msg\":\"" + esc(msg) + "\"}\n";
    if (write(viol_fd, line.data(), line.size()) < 0) {}
    sh->nviol = sh->nviol + 1;
    if (!only_mode && sh->nviol >= 4) { sh->done = 2; _exit(0); }   // enough evidence from this worker
}
inline void check(uint64_t n = 1) { sh->checks = sh->checks + n; }
inline void step(uint64_t n = 1) { sh->steps = sh->steps + n; }
inline void outcome(uint64_t h) { if (outcomes.size() < outcomes_cap) outcomes.insert(h); }
inline void count(const std::string &name, uint64_t n = 1) { counters[name] += n; }
inline void sample() {               // keep a few descriptions spread over the enumeration
    static uint64_t next = 0;
    if (sh->taken >= next && samples.size() < 6) { samples.push_back(description()); next = sh->taken * 8 + 1; }
}

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 14695981039346656037ull) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return mix(h);
}

// ---- heap balance: counts blocks allocated/freed while armed ------------------------------------------------
static volatile long live_blocks = 0;
static volatile bool armed = false;
#if defined(__SANITIZE_ADDRESS__)
static void on_malloc(const volatile void *p, size_t) { if (armed && p) live_blocks = live_blocks + 1; }
static void on_free(const volatile void *p) { if (armed && p) live_blocks = live_blocks - 1; }
#endif
inline void heap_arm() { live_blocks = 0; armed = true; }
inline long heap_disarm() { armed = false; return live_blocks; }

// ---- run something in a throw-away child: returns exit status, or -signal ------------------------------------
template <class F> int isolated(F f, int timeout_s = 20) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { alarm(timeout_s); int r = f(); _exit(r); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return -WTERMSIG(st);
}

static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

void explore();                      // supplied by the harness
static const char *rule = "";        // set by the harness before/inside explore (static string)

static std::string read_file(const std::string &p, size_t max = 1 << 24) {
    std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
    char b[65536]; size_t n;
    while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f); return r;
}

static void worker_body(const std::string &base, int slot) {
    scratch = base + "/w" + std::to_string(slot);
    mkdir(scratch.c_str(), 0700);
    std::string ef = base + "/err" + std::to_string(slot);
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    if (!only_mode) { std::cerr.rdbuf(nullptr); }
    dup2(nul, 1); std::cout.rdbuf(nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    explore();
    sh->total = counter;
    // results
    std::string of = base + "/out" + std::to_string(slot);
    FILE *o = fopen(of.c_str(), "ab");
    for (auto h : outcomes) fwrite(&h, 8, 1, o);
    fclose(o);
    std::string sf = base + "/smp" + std::to_string(slot);
    o = fopen(sf.c_str(), "ab");
    for (auto &s : samples) fprintf(o, "%s\n", esc(s).c_str());
    fclose(o);
    std::string cf = base + "/cnt" + std::to_string(slot);
    o = fopen(cf.c_str(), "ab");
    for (auto &s : counters) fprintf(o, "%s %llu\n", s.first.c_str(), (unsigned long long) s.second);
    fclose(o);
    sh->done = 1;
    _exit(0);
}

struct Viol { uint64_t idx; std::string line; };

static std::string tail(const std::string &s, size_t n = 600) {
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = s.size() > n ? s.size() - n : 0;
    else p = s.rfind('\n', p) == std::string::npos ? 0 : s.rfind('\n', p) + 1;
    return s.substr(p, n);
}

// Runs one case alone. Returns true when it fails; fills line.
// With hist_jobs > 0 the earlier cases of the same worker run first, in the same process.
static bool run_alone(const std::string &base, uint64_t idx, double limit, std::string &line, int hist_jobs = 0) {
    std::string vf = base + "/v_only";
    unlink(vf.c_str());
    Shared *s = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        sh = s; only_mode = true; only_idx = idx; counter = 0;
        if (hist_jobs > 0) { history = true; nshards = hist_jobs; shard = (int) (idx % hist_jobs); }
        viol_fd = open(vf.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
        worker_body(base, 999);
    }
    double t0 = now(); int st = 0; bool hung = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    kill(-p, SIGKILL);
    bool failed = false;
    std::string v = read_file(vf);
    std::string err = read_file(base + "/err999", 1 << 20);
    if (!v.empty()) { line = v.substr(0, v.find('\n')); failed = true; }
    else if (hung || !s->done) {
        std::string how = hung ? "case does not terminate" :
            WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) :
            "process terminated by the code under test, exit status " + std::to_string(WEXITSTATUS(st));
        line = "{\"idx\":" + std::to_string(idx) + ",\"desc\":\"@DESC@\",\"msg\":\"" + esc(how + " | " + tail(err)) + "\"}";
        failed = true;
    }
    munmap(s, sizeof(Shared));
    return failed;
}
static bool describe_only = false;   // run enumeration, print description of one case without executing it
} // namespace mc

#define MC_RULE(s) static struct McRule_ { McRule_() { mc::rule = s; } } mc_rule_
// In harnesses: MC_CASE(desc_lambda) after take(): registers the description, honours describe-only mode.
#define MC_CASE(d) do { mc::describe(d); if (mc::describe_only) { std::string s_ = (d)(); if (write(mc::viol_fd, s_.data(), s_.size()) < 0) {} _exit(0); } mc::sample(); } while (0)

namespace mc {
static std::string describe_case(const std::string &base, uint64_t idx) {
    std::string vf = base + "/d_only"; unlink(vf.c_str());
    Shared *s = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (p == 0) {
        sh = s; only_mode = true; only_idx = idx; counter = 0; describe_only = true; alarm(120);
        viol_fd = open(vf.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
        worker_body(base, 998);
    }
    int st; waitpid(p, &st, 0); munmap(s, sizeof(Shared));
    return read_file(vf);
}

static std::string finish_line(const std::string &base, uint64_t idx, std::string line) {
    size_t p = line.find("@DESC@");
    if (p != std::string::npos) line.replace(p, 6, esc(describe_case(base, idx)));
    return line;
}

int run_main(int argc, char **argv) {
    int jobs = 8; long only = -1; int hist = 0; int max_viol = 12; double stall = 60, budget = 400;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") tier = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--only") only = atol(argv[++i]);
        else if (a == "--history") hist = atoi(argv[++i]);
        else if (a == "--max-viol") max_viol = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--stall") stall = atof(argv[++i]);
    }
    thorough = tier == "thorough";
    if (const char *s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    char tmpl[] = "/tmp/pico_mc_XXXXXX";
    std::string base = mkdtemp(tmpl);
    if (chmod(base.c_str(), 0700)) {}
    double t0 = now();
    std::vector<Viol> viol;
    uint64_t flaky = 0;
    int rc = 0;
    if (only >= 0) {
        std::string line;
        bool f = run_alone(base, only, 300, line, hist);
        printf("%s\n", f ? finish_line(base, only, line).c_str() : ("{\"idx\":" + std::to_string(only) + ",\"ok\":true,\"desc\":\"" + esc(describe_case(base, only)) + "\"}").c_str());
        rc = f ? 1 : 0;
    } else {
        Shared *all = (Shared *) mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::vector<pid_t> pid(jobs, 0); std::vector<uint64_t> st_at(jobs, 0), last(jobs, 0); std::vector<double> since(jobs, t0);
        uint64_t taken = 0;
        std::string vf = base + "/viol";
        int vfd = open(vf.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
        std::vector<uint64_t> crashed;
        auto spawn = [&](int w) {
            all[w].done = 0; all[w].cur = 0; since[w] = now(); last[w] = 0;
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                sh = &all[w]; shard = w; nshards = jobs; start_at = st_at[w]; counter = 0; viol_fd = vfd;
                worker_body(base, w);
            }
            pid[w] = p;
        };
        for (int w = 0; w < jobs; w++) spawn(w);
        int live = jobs; bool capped = false; std::set<uint64_t> hangs;
        while (live) {
            usleep(3000);
            // several cases that do not end, or a failure and little time left: report what was found instead of going on
            if (hangs.size() >= 2 || (now() - t0 > budget && (!crashed.empty() || std::filesystem::file_size(vf) > 0))) {
                for (int w = 0; w < jobs; w++) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = 0; }
                capped = true; break;
            }
            for (int w = 0; w < jobs; w++) {
                if (!pid[w]) continue;
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool dead = r == pid[w], hung = false;
                if (!dead) {
                    if (all[w].cur != last[w]) { last[w] = all[w].cur; since[w] = now(); }
                    else if (now() - since[w] > stall && all[w].cur) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = hung = true; }
                }
                if (!dead) continue;
                if (all[w].done) { pid[w] = 0; live--; continue; }
                uint64_t idx = all[w].cur ? all[w].cur - 1 : 0;
                if (all[w].cur == 0) { fprintf(stderr, "worker died before its first case: %s\n", tail(read_file(base + "/err" + std::to_string(w))).c_str()); pid[w] = 0; live--; rc = 3; continue; }
                crashed.push_back(idx); if (hung) hangs.insert(idx);
                if (crashed.size() >= 24) { capped = true; pid[w] = 0; live--; continue; }
                st_at[w] = idx + 1; spawn(w);
            }
        }
        close(vfd);
        uint64_t total = 0, checks = 0, steps = 0; bool complete = !capped;
        for (int w = 0; w < jobs; w++) { taken += all[w].taken; checks += all[w].checks; steps += all[w].steps; if (all[w].total > total) total = all[w].total; if (all[w].done != 1) complete = false; }
        // candidate violations -> replay alone
        std::vector<uint64_t> cand = crashed;
        { std::istringstream is(read_file(vf)); std::string l; while (std::getline(is, l)) { if (l.size() > 8) cand.push_back(strtoull(l.c_str() + 7, nullptr, 10)); } }
        std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
        uint64_t unreplayed = 0; int hist_done = 0;
        std::stable_partition(cand.begin(), cand.end(), [&](uint64_t c) { return !hangs.count(c); });      // the slow ones last
        for (uint64_t c : cand) {
            if ((int) viol.size() >= max_viol || (!viol.empty() && (hangs.count(c) || now() - t0 > budget))) { unreplayed++; continue; }
            std::string line;
            if (run_alone(base, c, hangs.count(c) ? 90 : 150, line)) viol.push_back({c, finish_line(base, c, line)});
            else if (hist_done++ < 3 && run_alone(base, c, 300, line, jobs)) {
                line = finish_line(base, c, line);
                size_t q = line.find("\"msg\":\"");
                if (q != std::string::npos) line.insert(q + 7, "(only after the earlier cases ran in the same process: state is carried between runs) ");
                line.insert(1, "\"history\":" + std::to_string(jobs) + ",");
                viol.push_back({c, line});
            }
            else flaky++;
        }
        // merge
        std::unordered_set<uint64_t> oc; std::vector<std::string> smp; std::map<std::string, uint64_t> cn;
        for (int w = 0; w < jobs; w++) {
            std::string s = read_file(base + "/out" + std::to_string(w), 1ull << 31);
            for (size_t i = 0; i + 8 <= s.size(); i += 8) { uint64_t h; memcpy(&h, s.data() + i, 8); oc.insert(h); }
            std::istringstream is(read_file(base + "/smp" + std::to_string(w))); std::string l; int k = 0;
            while (std::getline(is, l) && k++ < 2 && smp.size() < 8) smp.push_back(l);
            std::istringstream ic(read_file(base + "/cnt" + std::to_string(w))); std::string nme; uint64_t v;
            while (ic >> nme >> v) cn[nme] += v;
        }
        printf("{\"total\":%llu,\"cases\":%llu,\"checks\":%llu,\"steps\":%llu,\"distinct\":%llu,\"complete\":%s,\"flaky\":%llu,\"unreplayed\":%llu,\"wall\":%.2f,\"rule\":\"%s\",\"counters\":{",
               (unsigned long long) total, (unsigned long long) taken, (unsigned long long) checks, (unsigned long long) steps, (unsigned long long) oc.size(),
               complete ? "true" : "false", (unsigned long long) flaky, (unsigned long long) unreplayed, now() - t0, esc(rule).c_str());
        bool first = true;
        for (auto &c : cn) { printf("%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long) c.second); first = false; }
        printf("},\"samples\":[");
        for (size_t i = 0; i < smp.size(); i++) printf("%s\"%s\"", i ? "," : "", smp[i].c_str());
        printf("],\"violations\":[");
        for (size_t i = 0; i < viol.size(); i++) printf("%s%s", i ? "," : "", viol[i].line.c_str());
        printf("]}\n");
        if (!viol.empty()) rc = 1; else if (!complete && rc == 0) rc = 3;
        munmap(all, sizeof(Shared) * jobs);
    }
    // remove the private scratch directory
    std::error_code ec;
    std::filesystem::remove_all(base, ec);
    return rc;
}
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::run_main(argc, argv); }
#endif

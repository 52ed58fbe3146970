// Controlled scheduler and access monitor for code compiled with -fsanitize=thread but linked against this runtime
// instead of libtsan.  Exactly one controlled thread runs at a time; at every access to memory that more than one
// thread touches (and at every synchronisation operation) the explorer decides who runs next.  Every access is checked
// against all earlier ones with vector clocks: two conflicting accesses not ordered by synchronisation are reported.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
#include <unistd.h>

extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); }

namespace sched {
static const int MAXT = 4;
typedef uint32_t Clk;
struct VC { Clk c[MAXT] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Byte { int8_t w = -1; Clk wc = 0; Clk r[MAXT] = {0, 0, 0, 0}; };
struct Cell { Byte b[8]; };
struct Thr { pthread_t th; sem_t go; VC vc; bool done = false, blocked = false; const void *wait = nullptr; char *stk_lo = nullptr, *stk_hi = nullptr; std::function<void()> body; };

static Thr T[MAXT];
static int nthr = 0, cur = -1;
static bool active = false;
static thread_local int self = -1;
static thread_local int depth = 0;              // >0: inside the runtime
static sem_t main_go;
static std::unordered_map<uintptr_t, Cell> *shadow;
static std::unordered_map<uintptr_t, uint8_t> *touched;       // 4-byte granule -> bit mask of threads (this execution)
static std::unordered_set<uintptr_t> *shared_locs;            // granules touched by several threads (this scenario)
static std::unordered_map<uintptr_t, size_t> *blocks;         // heap blocks allocated during the execution
static std::unordered_map<const void *, VC> *syncs;
static std::unordered_map<const void *, int> *owners;         // mutex / guard -> owning thread
static std::string race;
static uint64_t n_access = 0, n_points = 0;
// exploration state
struct Choice { uint8_t taken, options; };
static std::vector<Choice> trail; static size_t pos = 0;
static int budget = 0, used = 0; static bool diverged = false, deadlock = false;

static void switch_to(int t) {                  // called by the running thread (or main with self==-1)
    cur = t;
    sem_post(&T[t].go);
}
static void wait_turn() { while (sem_wait(&T[self].go)) {} }

static bool enabled(int t) { return !T[t].done && !T[t].blocked; }
static uint8_t choose(uint8_t options) {        // options >= 1
    if (options <= 1) return 0;
    uint8_t c = 0;
    if (pos < trail.size()) { c = trail[pos].taken; if (c >= options) { c = 0; diverged = true; } trail[pos].options = options; }
    else trail.push_back({0, options});
    pos++;
    return c;
}
static void point() {                           // scheduling point with the current thread still enabled
    n_points++;
    if (used >= budget) return;
    std::vector<int> others; for (int t = 0; t < nthr; t++) if (t != self && enabled(t)) others.push_back(t);
    if (others.empty()) return;
    uint8_t c = choose(1 + others.size());
    if (c == 0) return;
    used++;
    int me = self; (void) me;
    switch_to(others[c - 1]);
    wait_turn();
}
static void leave() {                           // current thread cannot continue (finished or blocked)
    std::vector<int> others; for (int t = 0; t < nthr; t++) if (t != self && enabled(t)) others.push_back(t);
    if (others.empty()) {
        for (int t = 0; t < nthr; t++) if (!T[t].done) deadlock = true;
        cur = -1; sem_post(&main_go); return;
    }
    switch_to(others[choose(others.size())]);
}
static void block_on(const void *what) { T[self].blocked = true; T[self].wait = what; leave(); if (deadlock) { for (;;) pause(); } wait_turn(); }
static void wake(const void *what) { for (int t = 0; t < nthr; t++) if (T[t].blocked && T[t].wait == what) { T[t].blocked = false; T[t].wait = nullptr; } }

static bool in_blocks(uintptr_t a) { return false; }

static void note_race(const char *kind, int other, uintptr_t a) {
    if (!race.empty()) return;
    char b[160]; snprintf(b, sizeof b, "thread %d's %s and an unsynchronised access of thread %d touch the same memory", self, kind, other); race = b;
}
static void access(uintptr_t a, size_t n, bool write) {
    if (!active || self < 0 || depth) return;
    Thr &me = T[self];
    if (a >= (uintptr_t) me.stk_lo && a < (uintptr_t) me.stk_hi) return;
    depth++;
    n_access++;
    bool sp = false;
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) {
        if (!sp && shared_locs->count(g)) sp = true;
        (*touched)[g] |= 1 << self;
    }
    if (sp) point();
    for (uintptr_t x = a; x < a + n; x++) {
        Byte &b = (*shadow)[x >> 3].b[x & 7];
        if (b.w >= 0 && b.w != self && b.wc > me.vc.c[b.w]) note_race(write ? "write" : "read", b.w, x);
        if (write) {
            for (int t = 0; t < nthr; t++) if (t != self && b.r[t] > me.vc.c[t]) note_race("write", t, x);
            b.w = self; b.wc = me.vc.c[self];
        } else b.r[self] = me.vc.c[self];
    }
    depth--;
}
static void forget(uintptr_t a, size_t n) {
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) { touched->erase(g); shared_locs->erase(g); }
    for (uintptr_t c = a >> 3; c <= (a + n - 1) >> 3; c++) shadow->erase(c);
}
static void on_alloc(void *p, size_t n) { if (!active || self < 0 || depth || !p || !n) return; depth++; forget((uintptr_t) p, n); (*blocks)[(uintptr_t) p] = n; depth--; }
static void on_free(void *p) {
    if (!active || self < 0 || depth || !p) return;
    size_t n = malloc_usable_size(p);
    depth++; auto it = blocks->find((uintptr_t) p); if (it != blocks->end()) { n = it->second; blocks->erase(it); } depth--;
    access((uintptr_t) p, n, true);              // freeing conflicts with every concurrent access
    depth++; forget((uintptr_t) p, n); depth--;
}
static void acquire(const void *a) { auto it = syncs->find(a); if (it != syncs->end()) T[self].vc.join(it->second); }
static void release(const void *a) { (*syncs)[a].join(T[self].vc); T[self].vc.c[self]++; }
struct In { In() { depth++; } ~In() { depth--; } };
static bool mine() { return active && self >= 0 && !depth; }

static void *entry(void *p) {
    self = (int) (intptr_t) p;
    depth = 1;
    wait_turn();
    depth = 0;
    T[self].body();
    depth = 1;
    T[self].done = true;
    leave();
    return nullptr;
}
// Executes the bodies once under the schedule prescribed by trail. Returns false on deadlock.
static bool execute(const std::vector<std::function<void()>> &bodies) {
    nthr = bodies.size(); pos = 0; used = 0; deadlock = false;
    shadow->clear(); touched->clear(); syncs->clear(); owners->clear(); blocks->clear();
    static const size_t STK = 1 << 18;
    static char *stacks[MAXT] = {};
    for (int t = 0; t < nthr; t++) {
        if (!stacks[t]) stacks[t] = (char *) aligned_alloc(4096, STK);
        T[t].done = T[t].blocked = false; T[t].wait = nullptr; T[t].body = bodies[t]; T[t].vc = VC(); T[t].vc.c[t] = 1;
        T[t].stk_lo = stacks[t]; T[t].stk_hi = stacks[t] + STK;
        sem_init(&T[t].go, 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks[t], STK);
        pthread_create(&T[t].th, &at, entry, (void *) (intptr_t) t);
        pthread_attr_destroy(&at);
    }
    active = true;
    uint8_t first = choose(nthr);
    switch_to(first);
    while (sem_wait(&main_go)) {}
    active = false;
    if (deadlock) return false;
    for (int t = 0; t < nthr; t++) { pthread_join(T[t].th, nullptr); T[t].body = nullptr; }
    // what several threads touched becomes a scheduling point from now on
    for (auto &x : *touched) if (x.second & (x.second - 1)) shared_locs->insert(x.first);
    return true;
}
// All schedules of the bodies with at most `bound` preemptions. before() resets the scenario, after() judges one execution.
static uint64_t explore(const std::vector<std::function<void()>> &bodies, int bound, std::function<void()> before, std::function<bool()> after, uint64_t cap) {
    static bool init = false;
    if (!init) { init = true; sem_init(&main_go, 0, 0); shadow = new std::unordered_map<uintptr_t, Cell>; touched = new std::unordered_map<uintptr_t, uint8_t>; shared_locs = new std::unordered_set<uintptr_t>; blocks = new std::unordered_map<uintptr_t, size_t>; syncs = new std::unordered_map<const void *, VC>; owners = new std::unordered_map<const void *, int>; }
    shared_locs->clear(); trail.clear(); race.clear();
    uint64_t n = 0;
    // one unconstrained execution to learn the shared locations
    budget = 0; before(); if (!execute(bodies) || !after()) return n + 1;
    n++; trail.clear(); budget = bound;
    for (;;) {
        before();
        if (!execute(bodies)) { after(); return n + 1; }
        n++;
        if (!after()) return n;
        trail.resize(pos);
        while (!trail.empty() && trail.back().taken + 1 >= trail.back().options) trail.pop_back();
        if (trail.empty()) return n;
        trail.back().taken++;
        if (n >= cap) return n;
    }
}
static std::string schedule_str() { std::string s = "first thread/then at each shared access: "; size_t k = 0; for (auto &c : trail) { if (c.taken) s += "choice " + std::to_string(k) + "->" + std::to_string((int) c.taken) + " "; k++; } return s; }
} // namespace sched

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
 void __tsan_read##n(void *p) { sched::access((uintptr_t) p, n, false); } \
 void __tsan_write##n(void *p) { sched::access((uintptr_t) p, n, true); } \
 void __tsan_read##n##_pc(void *p, void *) { sched::access((uintptr_t) p, n, false); } \
 void __tsan_write##n##_pc(void *p, void *) { sched::access((uintptr_t) p, n, true); } \
 void __tsan_unaligned_read##n(void *p) { sched::access((uintptr_t) p, n, false); } \
 void __tsan_unaligned_write##n(void *p) { sched::access((uintptr_t) p, n, true); } \
 void __tsan_volatile_read##n(void *p) { sched::access((uintptr_t) p, n, false); } \
 void __tsan_volatile_write##n(void *p) { sched::access((uintptr_t) p, n, true); } \
 void __tsan_unaligned_volatile_read##n(void *p) { sched::access((uintptr_t) p, n, false); } \
 void __tsan_unaligned_volatile_write##n(void *p) { sched::access((uintptr_t) p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) sched::access((uintptr_t) p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) sched::access((uintptr_t) p, n, true); }
void __tsan_vptr_update(void **p, void *) { sched::access((uintptr_t) p, 8, true); }
void __tsan_vptr_read(void **p) { sched::access((uintptr_t) p, 8, false); }

// atomics: a scheduling point, then acquire+release on the location, then the operation
#define AT_PRE(p) bool m_ = sched::mine(); if (m_) { sched::In in_; sched::point(); sched::acquire((const void *) (p)); }
#define AT_POST(p) if (m_) { sched::In in_; sched::release((const void *) (p)); }
#define ATOMICS(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *p, int) { AT_PRE(p) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##bits##_store(volatile T *p, T v, int) { AT_PRE(p) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); AT_POST(p) } \
 T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { AT_PRE(p) T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { AT_PRE(p) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { AT_PRE(p) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { AT_PRE(p) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// function-local statics
int __wrap___cxa_guard_acquire(uint64_t *g) {
    if (*(volatile uint8_t *) g) { if (sched::mine()) { sched::In in; sched::acquire(g); } return 0; }
    if (!sched::mine()) { return 1; }
    sched::In in; sched::point();
    while (sched::owners->count(g)) sched::block_on(g);
    if (*(volatile uint8_t *) g) { sched::acquire(g); return 0; }
    (*sched::owners)[g] = sched::self; return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
    *(volatile uint8_t *) g = 1;
    if (sched::mine()) { sched::In in; sched::release(g); sched::owners->erase(g); sched::wake(g); }
}
void __wrap___cxa_guard_abort(uint64_t *g) { if (sched::mine()) { sched::In in; sched::owners->erase(g); sched::wake(g); } }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sched::mine()) return __real_pthread_mutex_lock(m);
    sched::In in; sched::point();
    while (sched::owners->count(m)) sched::block_on(m);
    (*sched::owners)[m] = sched::self; sched::acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!sched::mine()) return __real_pthread_mutex_trylock(m);
    sched::In in; sched::point();
    if (sched::owners->count(m)) return 16;
    (*sched::owners)[m] = sched::self; sched::acquire(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!sched::mine()) return __real_pthread_mutex_unlock(m);
    sched::In in; sched::release(m); sched::owners->erase(m); sched::wake(m); return 0;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); sched::on_alloc(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); sched::on_alloc(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (q) sched::on_free(q); void *p = __real_realloc(q, n); sched::on_alloc(p, n); return p; }
void __wrap_free(void *p) { sched::on_free(p); __real_free(p); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { sched::access((uintptr_t) s, n, false); sched::access((uintptr_t) d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { sched::access((uintptr_t) s, n, false); sched::access((uintptr_t) d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) sched::access((uintptr_t) d, n, true); return __real_memset(d, c, n); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); sched::on_alloc(p, n); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); sched::on_alloc(p, n); return p; }
void operator delete(void *p) noexcept { sched::on_free(p); __real_free(p); }
void operator delete[](void *p) noexcept { sched::on_free(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { sched::on_free(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { sched::on_free(p); __real_free(p); }

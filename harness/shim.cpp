#include "shim.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <limits.h>
#include <sys/syscall.h>
#include <atomic>
#include <vector>

namespace {
const int SLOTS = 4096;
bool g_token = false;
uint64_t g_seed = 1;
double g_prob = 0.1;
int g_maxThreads = 4;
std::atomic<uint64_t> st_regions(0), st_switches(0), st_yields(0), st_chunks(0), st_hash(0);

uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

struct Team {
    int n;
    void (*fn)(void*);
    void* data;
    // workshares: only relaxed atomics, so that the runtime adds no ordering of its own
    std::atomic<unsigned long> slot[SLOTS];
    // combined parallel-loop description (set before the threads start)
    bool hasLoop; long ls, le, li, lc; bool lguided;
    // barrier
    pthread_mutex_t mu; pthread_cond_t cv; int waiting; unsigned long gen;
    // token scheduler
    uint64_t rng; int current; std::vector<int> state; // 0 runnable 1 barrier 2 done 3 blocked
    std::vector<void*> blockedOn;
    Team* parentTeam; int parentId;
};

struct Tls {
    Team* team; int id; unsigned long ws;
    long s, e, inc, chunk; bool guided; unsigned long cur; // current loop
    unsigned long long us, ue, uinc, uchunk; bool up;
    uint64_t rng;
};
__thread Tls tls;

uint64_t tnext() { tls.rng = mix(tls.rng); return tls.rng; }

// ---- token scheduler (mu held) ----
bool pickNext(Team* t, int self) {
    int cand[1024]; int c = 0;
    for (int i = 0; i < t->n; ++i) if (t->state[i] == 0) cand[c++] = i;
    if (c == 0) return false;
    t->rng = mix(t->rng);
    int nx = cand[t->rng % c];
    if (nx != self) {
        st_switches.fetch_add(1, std::memory_order_relaxed);
        uint64_t h = st_hash.load(std::memory_order_relaxed);
        st_hash.store(mix(h ^ (uint64_t)(nx + 1)), std::memory_order_relaxed);
    }
    t->current = nx;
    pthread_cond_broadcast(&t->cv);
    return true;
}
void waitTurn(Team* t, int id) {
    while (!(t->current == id && t->state[id] == 0)) pthread_cond_wait(&t->cv, &t->mu);
}

void perturb(bool always) {
    Team* t = tls.team;
    if (!t || t->n <= 1) return;
    st_yields.fetch_add(1, std::memory_order_relaxed);
    if (g_token) {
        // decision from the team's PRNG: only the running thread touches it
        t->rng = mix(t->rng);
        if (!always && (t->rng >> 11) * (1.0 / 9007199254740992.0) >= g_prob) return;
        pthread_mutex_lock(&t->mu);
        pickNext(t, tls.id);
        waitTurn(t, tls.id);
        pthread_mutex_unlock(&t->mu);
    }
    else {
        uint64_t r = tnext();
        if ((r >> 11) * (1.0 / 9007199254740992.0) >= g_prob) return;
        switch ((r >> 3) & 3) {
        case 0: sched_yield(); break;
        case 1: usleep((r >> 40) % 60); break;
        case 2: usleep((r >> 40) % 15); break;
        default: for (volatile int i = 0, m = (r >> 40) % 2000; i < m; i = i + 1) {} break;
        }
    }
}

void teamBarrier() {
    Team* t = tls.team;
    if (!t || t->n <= 1) return;
    if (!g_token) perturb(false);
    pthread_mutex_lock(&t->mu);
    unsigned long g = t->gen;
    if (++t->waiting == t->n) {
        t->waiting = 0;
        ++t->gen;
        if (g_token) {
            for (int i = 0; i < t->n; ++i) if (t->state[i] == 1) t->state[i] = 0;
            pickNext(t, tls.id);
            waitTurn(t, tls.id);
        }
        else pthread_cond_broadcast(&t->cv);
    }
    else if (g_token) {
        t->state[tls.id] = 1;
        pickNext(t, tls.id);
        while (t->gen == g) pthread_cond_wait(&t->cv, &t->mu);
        waitTurn(t, tls.id);
    }
    else {
        while (t->gen == g) pthread_cond_wait(&t->cv, &t->mu);
    }
    pthread_mutex_unlock(&t->mu);
    if (!g_token) perturb(false);
}

void threadBody(Team* t, int id) {
    Tls saved = tls;
    tls.team = t; tls.id = id; tls.ws = 0;
    tls.rng = mix(g_seed * 1000003ULL + id * 7919ULL + st_regions.load(std::memory_order_relaxed) * 104729ULL);
    if (t->hasLoop) {
        tls.s = t->ls; tls.e = t->le; tls.inc = t->li; tls.chunk = t->lc; tls.guided = t->lguided; tls.cur = 0;
        tls.ws = 1;
    }
    if (g_token && t->n > 1) {
        pthread_mutex_lock(&t->mu);
        waitTurn(t, id);
        pthread_mutex_unlock(&t->mu);
    }
    else perturb(false);
    t->fn(t->data);
    // implicit barrier at the end of the region: thread join (FREE), hand over (TOKEN)
    if (g_token && t->n > 1) {
        pthread_mutex_lock(&t->mu);
        t->state[id] = 2;
        pickNext(t, id);
        pthread_mutex_unlock(&t->mu);
    }
    tls = saved;
}

struct Arg { Team* t; int id; };
void* entry(void* p) {
    Arg a = *(Arg*) p;
    memset(&tls, 0, sizeof(tls));
    threadBody(a.t, a.id);
    return 0;
}

void runTeam(Team* t) {
    int n = t->n;
    st_regions.fetch_add(1, std::memory_order_relaxed);
    for (int i = 0; i < SLOTS; ++i) t->slot[i].store(0, std::memory_order_relaxed);
    pthread_mutex_init(&t->mu, 0);
    pthread_cond_init(&t->cv, 0);
    t->waiting = 0; t->gen = 0;
    t->state.assign(n, 0);
    t->rng = mix(g_seed ^ (st_regions.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ULL));
    t->current = n > 0 ? (int) (t->rng % n) : 0;
    std::vector<pthread_t> th(n);
    std::vector<Arg> args(n);
    for (int i = 1; i < n; ++i) {
        args[i].t = t; args[i].id = i;
        if (pthread_create(&th[i], 0, entry, &args[i])) { fprintf(stderr, "shim: pthread_create failed\n"); _exit(77); }
    }
    threadBody(t, 0);
    for (int i = 1; i < n; ++i) pthread_join(th[i], 0);
    pthread_mutex_destroy(&t->mu);
    pthread_cond_destroy(&t->cv);
}

void parallel(void (*fn)(void*), void* data, unsigned n, bool loop, long s, long e, long inc, long c, bool guided) {
    if (n == 0) n = tls.team ? 1 : g_maxThreads; // nested regions are serialised
    if (n > 1000) n = 1000;
    if (tls.team) n = 1;
    Team* t = new Team;
    t->n = n; t->fn = fn; t->data = data;
    t->hasLoop = loop; t->ls = s; t->le = e; t->li = inc; t->lc = c; t->lguided = guided;
    runTeam(t);
    delete t;
}

unsigned long newWs() {
    unsigned long k = tls.ws++;
    if (k >= SLOTS) { fprintf(stderr, "shim: too many workshares\n"); _exit(77); }
    return k;
}

std::atomic<unsigned long>& slot(unsigned long k) {
    static __thread char serial[sizeof(std::atomic<unsigned long>) * 1] __attribute__((aligned(8)));
    if (!tls.team) return *reinterpret_cast<std::atomic<unsigned long>*>(serial);
    return tls.team->slot[k];
}

bool loopNext(long* is, long* ie) {
    perturb(false);
    long total;
    if (tls.inc > 0) total = tls.e > tls.s ? (tls.e - tls.s + tls.inc - 1) / tls.inc : 0;
    else total = tls.s > tls.e ? (tls.s - tls.e - tls.inc - 1) / -tls.inc : 0;
    unsigned long ch = tls.chunk > 0 ? tls.chunk : 1;
    unsigned long p = slot(tls.cur).fetch_add(ch, std::memory_order_relaxed);
    if ((long) p >= total) return false;
    unsigned long q = p + ch;
    if ((long) q > total) q = total;
    *is = tls.s + (long) p * tls.inc;
    *ie = tls.s + (long) q * tls.inc;
    st_chunks.fetch_add(1, std::memory_order_relaxed);
    return true;
}
bool loopStart(long s, long e, long inc, long c, long* is, long* ie) {
    tls.s = s; tls.e = e; tls.inc = inc; tls.chunk = c; tls.cur = newWs();
    if (!tls.team) slot(0).store(0, std::memory_order_relaxed);
    return loopNext(is, ie);
}
typedef unsigned long long ull;
bool ullNext(ull* is, ull* ie) {
    perturb(false);
    ull total;
    if (tls.up) total = tls.ue > tls.us ? (tls.ue - tls.us + tls.uinc - 1) / tls.uinc : 0;
    else total = tls.us > tls.ue ? (tls.us - tls.ue + (0 - tls.uinc) - 1) / (0 - tls.uinc) : 0;
    unsigned long ch = tls.uchunk > 0 ? tls.uchunk : 1;
    unsigned long p = slot(tls.cur).fetch_add(ch, std::memory_order_relaxed);
    if (p >= total) return false;
    unsigned long q = p + ch;
    if (q > total) q = total;
    *is = tls.us + p * tls.uinc;
    *ie = tls.us + q * tls.uinc;
    st_chunks.fetch_add(1, std::memory_order_relaxed);
    return true;
}
bool ullStart(bool up, ull s, ull e, ull inc, ull c, ull* is, ull* ie) {
    tls.up = up; tls.us = s; tls.ue = e; tls.uinc = inc; tls.uchunk = c; tls.cur = newWs();
    if (!tls.team) slot(0).store(0, std::memory_order_relaxed);
    return ullNext(is, ie);
}

// mutual exclusion usable in both modes
struct Lock { pthread_mutex_t m; bool held; };
Lock* mkLock() { Lock* l = new Lock; pthread_mutex_init(&l->m, 0); l->held = false; return l; }
Lock* g_default() { static Lock* l = mkLock(); return l; }
Lock* g_atomic() { static Lock* l = mkLock(); return l; }

void lockAcquire(Lock* l) {
    perturb(false);
    Team* t = tls.team;
    if (g_token && t && t->n > 1) {
        // only one thread runs at a time: spin through the scheduler while it is held
        while (l->held) perturb(true);
        l->held = true;
    }
    else pthread_mutex_lock(&l->m);
}
void lockRelease(Lock* l) {
    Team* t = tls.team;
    if (g_token && t && t->n > 1) l->held = false;
    else pthread_mutex_unlock(&l->m);
    perturb(false);
}
pthread_mutex_t g_namesMu = PTHREAD_MUTEX_INITIALIZER;
Lock* named(void** p) {
    Lock* l = (Lock*) __atomic_load_n(p, __ATOMIC_ACQUIRE);
    if (l) return l;
    pthread_mutex_lock(&g_namesMu);
    l = (Lock*) *p;
    if (!l) { l = mkLock(); __atomic_store_n(p, (void*) l, __ATOMIC_RELEASE); }
    pthread_mutex_unlock(&g_namesMu);
    return l;
}
} // namespace

extern "C" {
int shim_present() { return 1; }
void shim_config(int token, uint64_t seed, double prob) { g_token = token; g_seed = seed; g_prob = prob; st_hash = mix(seed); st_regions.store(st_regions.load()); }
void shim_yield() { perturb(false); }
int shim_thread_id() { return tls.team ? tls.id : 0; }
void shim_stats(uint64_t* r, uint64_t* s, uint64_t* y, uint64_t* c, uint64_t* h) {
    if (r) *r = st_regions; if (s) *s = st_switches; if (y) *y = st_yields; if (c) *c = st_chunks; if (h) *h = st_hash;
}

void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n, false, 0, 0, 1, 1, false); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n, false, 0, 0, 1, 1, false); return n ? n : g_maxThreads; }
void GOMP_barrier() { teamBarrier(); }
bool GOMP_barrier_cancel() { teamBarrier(); return false; }

bool GOMP_single_start() {
    perturb(false);
    if (!tls.team || tls.team->n <= 1) { if (tls.team) newWs(); return true; }
    return slot(newWs()).fetch_add(1, std::memory_order_relaxed) == 0;
}

void GOMP_critical_start() { lockAcquire(g_default()); }
void GOMP_critical_end() { lockRelease(g_default()); }
void GOMP_critical_name_start(void** p) { lockAcquire(named(p)); }
void GOMP_critical_name_end(void** p) { lockRelease(named(p)); }
void GOMP_atomic_start() { lockAcquire(g_atomic()); }
void GOMP_atomic_end() { lockRelease(g_atomic()); }

#define LOOP(name) \
 bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } \
 bool GOMP_loop_##name##_next(long* a, long* b) { return loopNext(a, b); } \
 void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel(fn, d, n, true, s, e, i, c, false); } \
 bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ullStart(up, s, e, i, c, a, b); } \
 bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ullNext(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) \
 bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } \
 bool GOMP_loop_##name##_next(long* a, long* b) { return loopNext(a, b); } \
 void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel(fn, d, n, true, s, e, i, 1, false); } \
 bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ullStart(up, s, e, i, 1, a, b); } \
 bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ullNext(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { teamBarrier(); }
bool GOMP_loop_end_cancel() { teamBarrier(); return false; }
void GOMP_loop_end_nowait() { perturb(false); }

unsigned GOMP_sections_next() { perturb(false); unsigned long p = slot(tls.cur).fetch_add(1, std::memory_order_relaxed); return (long) p < tls.e ? p + 1 : 0; }
unsigned GOMP_sections_start(unsigned c) { tls.e = c; tls.cur = newWs(); if (!tls.team) slot(0).store(0); return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { parallel(fn, d, n, true, 0, c, 1, 1, false); }
void GOMP_sections_end() { teamBarrier(); }
bool GOMP_sections_end_cancel() { teamBarrier(); return false; }
void GOMP_sections_end_nowait() { perturb(false); }

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (cpy) {
        char* buf = (char*) malloc(size + align);
        char* p = (char*) (((uintptr_t) buf + align - 1) / align * align);
        cpy(p, data); fn(p); free(buf);
    } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_max_threads() { return g_maxThreads; }
int omp_get_num_threads() { return tls.team ? tls.team->n : 1; }
int omp_get_thread_num() { return tls.team ? tls.id : 0; }
void omp_set_num_threads(int n) { if (n > 0) g_maxThreads = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return tls.team && tls.team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return INT_MAX; }
int omp_get_level() { return tls.team ? 1 : 0; }
int omp_get_active_level() { return tls.team && tls.team->n > 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
// locks: the caller's storage may be only 4 bytes wide; keep an index into a table
static std::vector<Lock*>& lockTab() { static std::vector<Lock*>* v = new std::vector<Lock*>(65536, (Lock*) 0); return *v; }
static std::atomic<int> lockCnt(0);
void omp_init_lock(int* l) { int k = lockCnt.fetch_add(1) % 65536; lockTab()[k] = mkLock(); *l = k; }
void omp_destroy_lock(int*) {}
void omp_set_lock(int* l) { lockAcquire(lockTab()[*l]); }
void omp_unset_lock(int* l) { lockRelease(lockTab()[*l]); }
int omp_test_lock(int* l) {
    Lock* k = lockTab()[*l];
    if (g_token && tls.team && tls.team->n > 1) { if (k->held) return 0; k->held = true; return 1; }
    return pthread_mutex_trylock(&k->m) == 0;
}
}

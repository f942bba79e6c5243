// Runs threads one at a time.  The running thread offers a switch at every
// atomic operation of the library and at every allocation request; a seeded
// generator decides.  The hand-over itself is invisible to ThreadSanitizer
// (raw atomics and futexes in uninstrumented functions), so the detector still
// sees only the synchronisation of the code under test, while schedules are a
// function of the case and can be shrunk and replayed.
#pragma once
#include <linux/futex.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <functional>
#include <vector>
#include "pbt.h"
#include <roaring/memory.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SCHED_TSAN 1
#endif
#endif
#ifdef __clang__
#define SCHED_RAW __attribute__((noinline, disable_sanitizer_instrumentation))
#else
#define SCHED_RAW __attribute__((noinline))
#endif

namespace sched {
typedef pbt::u64 u64;
enum Point { REFCOUNT, ALLOC, FREE, LOAD, NPOINTS };
struct State {
    int n;
    int cur;
    int word[16];      // futex words: 1 = may run
    int done[16];
    u64 rng;
    u64 switches, budget;
    u64 den[NPOINTS];  // a point of this kind switches once in den times; 0: never
    u64 points[NPOINTS];
};
static State S;
static __thread int t_me = -1;
static __thread volatile void *t_last = nullptr;

SCHED_RAW static long fut(int *w, int op, int v) {
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_futex), "D"(w), "S"((long)op), "d"((long)v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
SCHED_RAW static void wait_turn(int me) {
    for (;;) {
        if (__atomic_load_n(&S.word[me], __ATOMIC_SEQ_CST) == 1) { __atomic_store_n(&S.word[me], 0, __ATOMIC_SEQ_CST); return; }
        fut(&S.word[me], FUTEX_WAIT_PRIVATE, 0);
    }
}
SCHED_RAW static void give(int to) {
    S.cur = to;
    __atomic_store_n(&S.word[to], 1, __ATOMIC_SEQ_CST);
    fut(&S.word[to], FUTEX_WAKE_PRIVATE, 1);
}
SCHED_RAW static u64 next() {
    u64 z = (S.rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
SCHED_RAW static void point(int kind) {
    int me = t_me;
    if (me < 0) return;
    S.points[kind]++;
    if (S.switches >= S.budget || !S.den[kind] || next() % S.den[kind]) return;
    int to = (int)(next() % (u64)S.n);
    for (int i = 0; i < S.n && (to == me || S.done[to]); i++) to = (to + 1) % S.n;
    if (to == me || S.done[to]) return;
    S.switches++;
    give(to);
    wait_turn(me);
}
SCHED_RAW static void enter(int me) { t_me = me; wait_turn(me); }
SCHED_RAW static void leave(int me) {
    S.done[me] = 1;
    t_me = -1;
    for (int i = 0; i < S.n; i++) if (!S.done[i]) { give(i); return; }
}

struct Arg { int id; std::function<void(int)> *f; };
inline void *body(void *p) {
    Arg *a = (Arg *)p;
    enter(a->id);
    (*a->f)(a->id);
    leave(a->id);
    return nullptr;
}
SCHED_RAW inline void reset(int n, u64 seed, u64 budget, const u64 *den) {
    memset((void *)&S, 0, sizeof S);
    S.n = n;
    S.rng = seed;
    S.budget = budget;
    for (int i = 0; i < NPOINTS; i++) S.den[i] = den[i];
}
// Runs f(0) .. f(n-1) in n threads under the schedule.
inline void run(int n, u64 seed, u64 budget, const u64 *den, std::function<void(int)> f) {
    reset(n, seed, budget, den);
    pthread_t th[16];
    Arg arg[16];
    for (int i = 0; i < n; i++) {
        arg[i] = {i, &f};
        if (pthread_create(&th[i], nullptr, body, &arg[i])) abort();
    }
    give(0);
    for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
}

// allocation requests of the library are switch points
inline void *m_malloc(size_t n) { point(ALLOC); return malloc(n); }
inline void *m_realloc(void *p, size_t n) { point(ALLOC); return realloc(p, n); }
inline void *m_calloc(size_t k, size_t n) { point(ALLOC); return calloc(k, n); }
inline void m_free(void *p) { point(FREE); free(p); point(FREE); }
inline void *m_aligned(size_t a, size_t n) {
    point(ALLOC);
    void *p = nullptr;
    if (a < sizeof(void *)) a = sizeof(void *);
    return posix_memalign(&p, a, n) ? nullptr : p;
}
inline void install() {
    roaring_memory_t h = {m_malloc, m_realloc, m_calloc, m_free, m_aligned, m_free};
    roaring_init_memory_hook(h);
}
}  // namespace sched

#ifdef SCHED_TSAN
// Linked with --wrap (see checks.py).  ThreadSanitizer does not model
// fences; an acquire fence makes the preceding atomic read of this thread an
// acquiring one, which is what is told to the detector here.
extern "C" {
void __tsan_acquire(void *);
#define SCHED_RMW(name)                                                                  \
    unsigned __real___tsan_atomic32_##name(volatile unsigned *, unsigned, int);          \
    unsigned __wrap___tsan_atomic32_##name(volatile unsigned *a, unsigned v, int mo) {   \
        sched::point(sched::REFCOUNT);                                                   \
        unsigned r = __real___tsan_atomic32_##name(a, v, mo);                            \
        sched::t_last = a;                                                               \
        sched::point(sched::REFCOUNT);                                                   \
        return r;                                                                        \
    }
SCHED_RMW(fetch_add)
SCHED_RMW(fetch_sub)
SCHED_RMW(exchange)
unsigned __real___tsan_atomic32_load(const volatile unsigned *, int);
unsigned __wrap___tsan_atomic32_load(const volatile unsigned *a, int mo) {
    unsigned r = __real___tsan_atomic32_load(a, mo);
    sched::t_last = (volatile void *)a;
    sched::point(sched::LOAD);
    return r;
}
void __real___tsan_atomic32_store(volatile unsigned *, unsigned, int);
void __wrap___tsan_atomic32_store(volatile unsigned *a, unsigned v, int mo) {
    sched::point(sched::LOAD);
    __real___tsan_atomic32_store(a, v, mo);
    sched::point(sched::LOAD);
}
void __real___tsan_atomic_thread_fence(int);
void __wrap___tsan_atomic_thread_fence(int mo) {
    __real___tsan_atomic_thread_fence(mo);
    if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED && sched::t_last) __tsan_acquire((void *)sched::t_last);
}
}
#endif

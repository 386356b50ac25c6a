#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include "fib.h"
#if defined(VH_ASAN)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

#define MAXF 96
#define STK (128 * 1024)

typedef struct fiber {
    void *sp; char *stk; int id, state; /* 0 free 1 runnable 2 blocked 3 done */
    void (*fn)(void *); void *arg;
    void *(*pfn)(void *); void *ret;
    void *waiton; int what; int joined, detached; int timed;
    uint64_t frozen_until; void *fake; uint64_t spin;
} fiber;
static fiber F[MAXF]; static int nF, cur = -1, nopre, active, curmax;
static void *main_sp; static void *main_fake;
static uint64_t rs, steps, maxsteps, nsw, shash, nowc, quantum, qleft;
static int strat, pshift, result; static char why[400];
static uint64_t changepts[8]; static int nchange; static int prio[MAXF];

static inline uint64_t rnd(void) { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t rn(uint64_t n) { return (uint64_t)(((unsigned __int128)rnd() * n) >> 64); }

void fib_sw(void **from, void *to);
__asm__(".text\n.globl fib_sw\n.type fib_sw,@function\nfib_sw:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static const void *mb; static size_t ms;
static void switch_to(int to)   /* to == -1: scheduler's caller */
{
    int me = cur; cur = to; nsw++; shash = (shash ^ (uint64_t)(to + 2)) * 0x100000001b3ull ^ (steps << 7);
    void **fromsp = me < 0 ? &main_sp : &F[me].sp; void *tosp = to < 0 ? main_sp : F[to].sp;
#if defined(VH_ASAN)
    void *f = 0;
    __sanitizer_start_switch_fiber(me >= 0 && F[me].state == 3 ? 0 : &f, to < 0 ? mb : F[to].stk, to < 0 ? ms : STK);
#endif
    fib_sw(fromsp, tosp);
#if defined(VH_ASAN)
    __sanitizer_finish_switch_fiber(f, 0, 0);
#endif
}
static int pick(void)
{
    int c[MAXF], n = 0, fr = 0;
    for (int i = 0; i < nF; i++) if (F[i].state == 1) { if (F[i].frozen_until > steps) fr++; else c[n++] = i; }
    if (!n && fr) { uint64_t lo = ~0ull; int b = -1; for (int i = 0; i < nF; i++) if (F[i].state == 1 && F[i].frozen_until < lo) { lo = F[i].frozen_until; b = i; } F[b].frozen_until = 0; return b; }
    if (!n) return -1;
    if (strat == 1) { int b = c[0]; for (int i = 1; i < n; i++) if (prio[c[i]] > prio[b]) b = c[i]; return b; }
    return c[rn((uint64_t)n)];
}
static void resched(void)
{
    if (result) { switch_to(-1); return; }
    int n = pick();
    qleft = quantum ? 1 + rn(quantum) : 0;
    if (n == cur) return;
    if (n < 0) {
        /* nobody can run */
        size_t k = 0; int live = 0;
        for (int i = 0; i < nF; i++) if (F[i].state == 2) { live++; k += (size_t)snprintf(why + k, k < sizeof why ? sizeof why - k : 0, "[thread %d blocked in %s]", i, F[i].what == 1 ? "mutex_lock" : F[i].what == 2 ? "sem_wait" : F[i].what == 3 ? "cond_wait" : "join"); if (k >= sizeof why) k = sizeof why - 1; }
        if (live) result = FIB_DEADLOCK;
        switch_to(-1); return;
    }
    switch_to(n);
}
static inline void preempt(void)
{
    if (cur < 0 || nopre) return;
    steps++;
    if (steps > maxsteps) { if (!result) { result = FIB_STEPS; snprintf(why, sizeof why, "no end after %llu steps (strategy %d)", (unsigned long long)steps, strat); } switch_to(-1); return; }
    if (strat == 1) {
        for (int i = 0; i < nchange; i++) if (changepts[i] == steps) { prio[cur] = -i - 1; resched(); return; }
        if (++F[cur].spin > 400) { F[cur].spin = 0; int lo = 0; for (int i = 0; i < nF; i++) if (prio[i] < lo) lo = prio[i]; prio[cur] = lo - 1; resched(); }
        return;
    }
    if (strat == 2) {   /* long freezes of single threads */
        if (rn(96) == 0) { F[cur].frozen_until = steps + 1 + rn(600); resched(); return; }
        if (rn(12) == 0) resched();
        return;
    }
    if (strat == 3) { if (qleft == 0 || --qleft == 0) resched(); return; }
    if ((rnd() & ((1u << pshift) - 1)) == 0) resched();
}
static void entry(void)
{
    fiber *f = &F[cur];
#if defined(VH_ASAN)
    __sanitizer_finish_switch_fiber(0, 0, 0);
#endif
    if (f->pfn) f->ret = f->pfn(f->arg); else f->fn(f->arg);
    f->state = 3;
    for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].what == 4 && F[i].waiton == f) F[i].state = 1;
    resched();
    abort();
}
static int spawn(void (*fn)(void *), void *(*pfn)(void *), void *arg)
{
    if (nF >= MAXF) { fprintf(stderr, "fib: too many fibers\n"); abort(); }
    fiber *f = &F[nF]; char *stk = f->stk;
    memset(f, 0, sizeof *f);
    if (!stk) { stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
#if defined(VH_ASAN)
    __asan_unpoison_memory_region(stk, STK);
#endif
    f->stk = stk; f->id = nF; f->fn = fn; f->pfn = pfn; f->arg = arg; f->state = 1;
    uint64_t *s = (uint64_t *)(stk + STK); s -= 2; *--s = 0; *--s = (uint64_t)(uintptr_t)entry;
    for (int i = 0; i < 6; i++) *--s = 0;
    --s; { uint32_t mx; uint16_t cw; __asm__ volatile("stmxcsr %0" : "=m"(mx)); __asm__ volatile("fnstcw %0" : "=m"(cw)); ((uint32_t *)s)[0] = mx; ((uint32_t *)s)[1] = cw; }
    f->sp = s; prio[nF] = (int)rn(1000) + 1;
    return nF++;
}
int fib_spawn(void (*fn)(void *), void *arg) { int id = spawn(fn, 0, arg); fib_point(); return id; }
void fib_join(int id)
{
    fiber *me = &F[cur];
    while (F[id].state != 3) { me->state = 2; me->what = 4; me->waiton = &F[id]; resched(); if (result) switch_to(-1); }
}
uint64_t fib_now(void) { return ++nowc; }
int fib_self(void) { return cur; }
void fib_yield(void) { if (cur >= 0) { F[cur].spin = 0; if (strat == 1) { int lo = 0; for (int i = 0; i < nF; i++) if (prio[i] < lo) lo = prio[i]; prio[cur] = lo - 1; } resched(); } }
void fib_point(void) { preempt(); }
void fib_nopreempt(int on) { nopre = on; }
uint64_t fib_switches(void) { return nsw; }
uint64_t fib_schedhash(void) { return shash; }
const char *fib_why(void) { return why; }
int fib_live(void) { int n = 0; for (int i = 0; i < nF; i++) n += F[i].state != 3; return n; }

static void reset_objs(void);
int fib_run(uint64_t seed, void (*fn)(void *), void *arg, uint64_t ms)
{
    rs = seed * 0x2545f4914f6cdd1dull + 77; nF = 0; cur = -1; steps = nsw = nowc = 0; shash = 0xcbf29ce484222325ull; result = 0; why[0] = 0; maxsteps = ms; nopre = 0;
    reset_objs();
    uint64_t k = rn(10);
    strat = k < 5 ? 0 : k < 7 ? 1 : k < 9 ? 2 : 3;
    pshift = (int)rn(7); quantum = strat == 3 ? 3 + rn(200) : 0; qleft = quantum;
    nchange = (int)rn(7); for (int i = 0; i < nchange; i++) changepts[i] = 1 + rn(1u << (6 + rn(7)));
    if (!mb) { pthread_attr_t a; void *b; size_t z; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &z); pthread_attr_destroy(&a); mb = b; ms = z; }
    spawn(fn, 0, arg); active = 1;
    switch_to(0);
    active = 0; cur = -1;
    return result;
}

/* ---- coverage callbacks = preemption points */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { while (a < b) *a++ = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; preempt(); }
#define CB(n) void __sanitizer_cov_load##n(void *p) { (void)p; preempt(); } void __sanitizer_cov_store##n(void *p) { (void)p; preempt(); }
CB(1) CB(2) CB(4) CB(8) CB(16)

/* ---- pthread objects by address */
typedef struct obj { void *a; int kind; long v; int owner; int alive; int rec; } obj;
#define NOBJ 8192
static obj O[NOBJ]; static int nO; static int16_t OH[2 * NOBJ];      /* open-addressing index, 0 = free */
static unsigned ohash(void *a, int kind) { uint64_t x = ((uint64_t)(uintptr_t)a >> 3) * 0x9e3779b97f4a7c15ull + (uint64_t)kind * 0xff51afd7ed558ccdull; return (unsigned)(x >> 40) & (2 * NOBJ - 1); }
static void reset_objs(void) { nO = 0; memset(OH, 0, sizeof OH); }
int fib_objs(void) { int n = 0; for (int i = 0; i < nO; i++) n += O[i].alive; return n; }   /* created and not destroyed */
static obj *get(void *a, int kind)
{
    unsigned h = ohash(a, kind);
    for (; OH[h]; h = (h + 1) & (2 * NOBJ - 1)) { obj *o = &O[OH[h] - 1]; if (o->a == a && o->kind == kind) return o; }
    if (nO >= NOBJ) { fprintf(stderr, "fib: too many sync objects\n"); abort(); }
    OH[h] = (int16_t)(nO + 1);
    obj *o = &O[nO++]; memset(o, 0, sizeof *o); o->a = a; o->kind = kind; o->owner = -1; o->alive = 1; return o;
}
static void misuse(const char *w) { if (!result) { result = FIB_MISUSE; snprintf(why, sizeof why, "%s", w); } switch_to(-1); }
static void block(int what, void *on) { F[cur].state = 2; F[cur].what = what; F[cur].waiton = on; resched(); if (result) switch_to(-1); }
static void wakeone(int what, void *on)
{
    int c[MAXF], n = 0; for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].what == what && F[i].waiton == on) c[n++] = i;
    if (n) F[c[rn((uint64_t)n)]].state = 1;
}
static void wakeall(int what, void *on) { for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].what == what && F[i].waiton == on) F[i].state = 1; }

#define R(n) extern __typeof__(n) __real_##n __attribute__((weak))
R(pthread_create); R(pthread_join); R(pthread_detach); R(pthread_self); R(pthread_mutex_init); R(pthread_mutex_destroy);
R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_cond_init); R(pthread_cond_destroy);
R(pthread_cond_wait); R(pthread_cond_signal); R(pthread_cond_broadcast); R(sem_init); R(sem_destroy); R(sem_wait); R(sem_trywait); R(sem_post);
R(sched_yield); R(usleep); R(nanosleep);
R(pthread_setaffinity_np);
#define IN (active && cur >= 0)

static int fault_create;      /* make the n-th thread creation fail */
void fib_fail_create(int n) { fault_create = n; }
static int fault_sem, fault_mutex;      /* likewise the n-th semaphore and mutex initialization */
void fib_fail_init(int sem, int mutex) { fault_sem = sem; fault_mutex = mutex; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!IN) return __real_pthread_create(t, at, fn, arg);
    if (fault_create && --fault_create == 0) return EAGAIN;
    int id = spawn(0, fn, arg); *t = (pthread_t)(id + 1); preempt(); return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret)
{
    if (!IN) return __real_pthread_join(t, ret);
    int id = (int)t - 1; if (id < 0 || id >= nF) { misuse("join of an invalid thread"); return EINVAL; }
    if (F[id].joined || F[id].detached) { misuse("thread joined twice or joined after detach"); return EINVAL; }
    fib_join(id); F[id].joined = 1; if (ret) *ret = F[id].ret; return 0;
}
int __wrap_pthread_detach(pthread_t t) { if (!IN) return __real_pthread_detach(t); int id = (int)t - 1; if (id >= 0 && id < nF) F[id].detached = 1; return 0; }
pthread_t __wrap_pthread_self(void) { if (!IN) return __real_pthread_self(); return (pthread_t)(cur + 1); }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { if (!IN) return __real_pthread_setaffinity_np(t, n, c); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{ if (!IN) return __real_pthread_mutex_init(m, a); if (fault_mutex && --fault_mutex == 0) return EAGAIN; obj *o = get(m, 1); o->owner = -1; o->v = 0; o->alive = 1; int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); o->rec = ty == PTHREAD_MUTEX_RECURSIVE; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{ if (!IN) return __real_pthread_mutex_destroy(m); obj *o = get(m, 1); if (o->owner >= 0) misuse("mutex destroyed while held"); if (!o->alive) misuse("mutex destroyed twice"); o->alive = 0; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!IN) return __real_pthread_mutex_lock(m);
    preempt(); obj *o = get(m, 1); if (!o->alive) misuse("lock of a destroyed mutex");
    if (o->rec && o->owner == cur) { o->v++; return 0; }
    while ((o = get(m, 1))->owner >= 0) block(1, m);
    o->owner = cur; o->v = 1; return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{ if (!IN) return __real_pthread_mutex_trylock(m); preempt(); obj *o = get(m, 1); if (o->owner >= 0 && !(o->rec && o->owner == cur)) return EBUSY; o->owner = cur; o->v++; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!IN) return __real_pthread_mutex_unlock(m);
    obj *o = get(m, 1); if (o->owner != cur) misuse("mutex unlocked by a thread that does not hold it");
    if (--o->v > 0) return 0;
    o->owner = -1; o->v = 0; wakeone(1, m); preempt(); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (!IN) return __real_pthread_cond_init(c, a); get(c, 3)->alive = 1; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{ if (!IN) return __real_pthread_cond_destroy(c); for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].what == 3 && F[i].waiton == c) misuse("condition destroyed while a thread waits on it"); get(c, 3)->alive = 0; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!IN) return __real_pthread_cond_wait(c, m);
    obj *o = get(m, 1); if (o->owner != cur) misuse("cond_wait without holding the mutex");
    o->owner = -1; o->v = 0; wakeone(1, m);
    if (rn(24) != 0) block(3, c); else preempt();       /* spurious wake-ups are allowed */
    while ((o = get(m, 1))->owner >= 0) block(1, m);
    o->owner = cur; o->v = 1; return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!IN) return __real_pthread_cond_signal(c); preempt(); wakeone(3, c); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!IN) return __real_pthread_cond_broadcast(c); preempt(); wakeall(3, c); return 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { if (!IN) return __real_sem_init(s, sh, v); if (fault_sem && --fault_sem == 0) { errno = ENOSPC; return -1; } obj *o = get(s, 2); o->v = (long)v; o->alive = 1; return 0; }
int __wrap_sem_destroy(sem_t *s)
{ if (!IN) return __real_sem_destroy(s); for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].what == 2 && F[i].waiton == s) misuse("semaphore destroyed while a thread waits on it"); obj *o = get(s, 2); if (!o->alive) misuse("semaphore destroyed twice"); o->alive = 0; return 0; }
int __wrap_sem_wait(sem_t *s)
{ if (!IN) return __real_sem_wait(s); preempt(); obj *o = get(s, 2); if (!o->alive) misuse("wait on a destroyed semaphore"); while ((o = get(s, 2))->v <= 0) block(2, s); o->v--; return 0; }
int __wrap_sem_trywait(sem_t *s)
{ if (!IN) return __real_sem_trywait(s); preempt(); obj *o = get(s, 2); if (o->v <= 0) { errno = EAGAIN; return -1; } o->v--; return 0; }
int __wrap_sem_post(sem_t *s)
{ if (!IN) return __real_sem_post(s); obj *o = get(s, 2); if (!o->alive) misuse("post to a destroyed semaphore"); o->v++; wakeone(2, s); preempt(); return 0; }
int __wrap_sched_yield(void) { if (!IN) return __real_sched_yield(); fib_yield(); return 0; }
int __wrap_usleep(useconds_t u) { if (!IN) return __real_usleep(u); fib_yield(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!IN) return __real_nanosleep(a, b); fib_yield(); return 0; }

/* C54: the semaphores made of mutex and condition (Darwin port) and the lock managers: exact counting, no lost wake-up,
 * mutual exclusion (plain data under TSan), safe destruction by the waiter, independence of locks. */
#include "vh.h"
#include <pthread.h>
#include <stdatomic.h>
#include <sched.h>
#include <semaphore.h>          /* inc/Darwin/semaphore.h, symbols renamed by the build */
#include "utils/lockmgr.h"
#ifndef ___DARWIN_SEMAPHORE_H_8031745_1364254411__
#error "wrong semaphore.h"
#endif
/* delays right after the primitives used inside, and failing creation */
static _Atomic int dly, failm, failc, mlive, clive; static __thread uint64_t drs;
static void delay(void) { if (!atomic_load_explicit(&dly, memory_order_relaxed)) return; if (!drs) drs = vh_mix((uint64_t)(uintptr_t)&drs ^ vh_seed); drs = vh_mix(drs); if (drs % 3 == 0) sched_yield(); else if (drs % 11 == 0) usleep((unsigned)(drs >> 40) % 150); }
int __real_pthread_mutex_lock(pthread_mutex_t *), __real_pthread_mutex_unlock(pthread_mutex_t *), __real_pthread_cond_broadcast(pthread_cond_t *), __real_pthread_cond_signal(pthread_cond_t *), __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *), __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *), __real_pthread_mutex_destroy(pthread_mutex_t *), __real_pthread_cond_destroy(pthread_cond_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); delay(); return r; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { delay(); return __real_pthread_cond_broadcast(c); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { delay(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (failm) return failm; mlive++; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (failc) return failc; clive++; return __real_pthread_cond_init(c, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { mlive--; return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { clive--; return __real_pthread_cond_destroy(c); }
#define BAD(key, ...) vh_viol(key, __VA_ARGS__)
static void seq(void)                                   /* exact counting, one thread */
{
    sem_t s; unsigned v = (unsigned)(vrp(30) ? 0 : vrp(20) ? 0x7fffff00u : vrn(20)); uint64_t cnt = v; int r;
    vh_case("sequence from %u", v); if (sem_init(&s, 0, v)) { BAD("sem:init", "init failed"); return; }
    for (int i = 0; i < 300; i++) switch (vrn(4)) {
    case 0: if (cnt < 0x7fffffff) { r = sem_post(&s); if (r) BAD("sem:post", "post returned %d", r); cnt++; } break;
    case 1: if (cnt) { alarm(20); r = sem_wait(&s); alarm(0); if (r) BAD("sem:wait", "wait returned %d", r); cnt--; vh_count("waits", 1); } break;
    default: errno = 0; r = sem_trywait(&s); if (cnt ? r != 0 : r != -1 || errno != EAGAIN) BAD("sem:trywait", "trywait at %llu returned %d, errno %d", (unsigned long long)cnt, r, errno); if (cnt) cnt--; vh_count("tries", 1); }
    uint64_t k = 0; while (k <= cnt + 1 && k < 3000 && !sem_trywait(&s)) k++;
    if (k != (cnt > 2999 ? 3000 : cnt)) BAD("sem:count", "%llu left instead of %llu", (unsigned long long)k, (unsigned long long)cnt);
    if (sem_destroy(&s)) BAD("sem:destroy", "destroy failed");
    vh_sig(vh_h(v, vr()));
}
static void initfail(void)
{
    sem_t s; int e = vrp(50) ? EAGAIN : ENOMEM, c = (int)vrn(2), m0 = mlive, c0 = clive; vh_case("init fails (%s)", c ? "cond" : "mutex"); if (c) failc = e; else failm = e; errno = 0; int r = sem_init(&s, 0, 1); failc = failm = 0;
    if (r != -1 || errno != e) BAD("sem:init-failure", "init returned %d, errno %d, expected -1 and %d", r, errno, e); if (mlive != m0 || clive != c0) BAD("sem:init-leak", "a failed init leaves %d mutexes and %d conditions", mlive - m0, clive - c0);
    vh_count("init_failures", 1); vh_sig(vh_h((uint64_t)e, (uint64_t)c));
}
static sem_t S; static int per, nprod, ncons, init; static _Atomic int inside, maxin, got, put; static long plain; static int cap;
static void *prod(void *a) { (void)a; for (int i = 0; i < per; i++) { atomic_fetch_add(&put, 1); sem_post(&S); } return 0; }
static void *cons(void *a) { int n = (int)(intptr_t)a; for (int i = 0; i < n; i++) { if ((i & 3) == 3) { int k = 0; while (sem_trywait(&S)) { if (++k > 20) { sem_wait(&S); break; } sched_yield(); } } else sem_wait(&S); int g = atomic_fetch_add(&got, 1) + 1; if (g > init + atomic_load(&put)) atomic_store(&maxin, 1 << 20); } return 0; }
static void *crit(void *a) { (void)a; for (int i = 0; i < per; i++) { if (i % 5 == 4) { while (sem_trywait(&S)) sched_yield(); } else sem_wait(&S); int k = atomic_fetch_add_explicit(&inside, 1, memory_order_relaxed) + 1, m = atomic_load_explicit(&maxin, memory_order_relaxed); while (k > m && !atomic_compare_exchange_weak_explicit(&maxin, &m, k, memory_order_relaxed, memory_order_relaxed)) ; if (cap == 1) plain++; delay(); atomic_fetch_sub_explicit(&inside, 1, memory_order_relaxed); sem_post(&S); } return 0; }
static void threads(void)
{
    pthread_t t[16]; int n = 0, kind = (int)vrn(2); inside = maxin = got = put = 0; plain = 0; dly = vrp(70); alarm(60);
    if (kind) {                                          /* producers and consumers: everything posted is taken, everyone wakes up */
        nprod = 1 + (int)vrn(4); ncons = 1 + (int)vrn(4); init = (int)vrn(4); int want; do { per = 1 + (int)vrn(60); want = nprod * per + init; } while (want < ncons); vh_case("%d producers of %d, %d consumers, initially %d", nprod, per, ncons, init); sem_init(&S, 0, (unsigned)init);
        int left = want; for (int i = 0; i < ncons; i++) { int k = i == ncons - 1 ? left : want / ncons; left -= k; pthread_create(&t[n++], 0, cons, (void *)(intptr_t)k); } for (int i = 0; i < nprod; i++) pthread_create(&t[n++], 0, prod, 0);
        for (int i = 0; i < n; i++) pthread_join(t[i], 0); if (got != want) BAD("sem:lost", "%d of %d taken", got, want); if (maxin) BAD("sem:overtake", "more taken than posted"); if (!sem_trywait(&S)) BAD("sem:extra", "something left"); vh_count("posts", (uint64_t)want);
    } else {
        cap = vrp(50) ? 1 : 1 + (int)vrn(3); int nt = 2 + (int)vrn(6); per = 5 + (int)vrn(60); vh_case("%d threads, %d allowed inside", nt, cap); sem_init(&S, 0, (unsigned)cap);
        for (int i = 0; i < nt; i++) pthread_create(&t[n++], 0, crit, 0); for (int i = 0; i < n; i++) pthread_join(t[i], 0); if (maxin > cap) BAD("sem:crowd", "%d inside, %d allowed", maxin, cap); if (cap == 1 && plain != (long)nt * per) BAD("sem:exclusion", "counter %ld of %ld", plain, (long)nt * per);
        int k = 0; while (k < 10 && !sem_trywait(&S)) k++; if (k != cap) BAD("sem:count", "%d left of %d", k, cap); vh_count("entries", (uint64_t)(nt * per)); vh_count("overlaps", maxin > 1);
    }
    alarm(0); dly = 0; sem_destroy(&S); vh_sig(vh_h(vr(), (uint64_t)n));
}
/* completion semaphores: the waiter destroys and releases the semaphore as soon as it wakes up */
static void *complete(void *a) { sem_t **v = a; for (int i = 0; i < per; i++) sem_post(v[i]); return 0; }
static void destroy(void)
{
    sem_t *v[64]; per = 1 + (int)vrn(40); dly = vrp(70); vh_case("%d completions destroyed by their waiter", per); for (int i = 0; i < per; i++) { v[i] = malloc(sizeof **v); sem_init(v[i], 0, 0); }
    pthread_t t; alarm(60); pthread_create(&t, 0, complete, v); for (int i = 0; i < per; i++) { sem_wait(v[i]); sem_destroy(v[i]); memset(v[i], 0x5a, sizeof **v); free(v[i]); } pthread_join(t, 0); alarm(0); dly = 0; vh_count("completions", (uint64_t)per); vh_sig(vr());
}
/* lock managers */
static lockmgr LK[4]; static long cnt[4]; static int nl; static uint64_t ts[8];
static void *locker(void *a) { uint64_t s = ts[(intptr_t)a]; for (int i = 0; i < per; i++) { s = vh_mix(s); int k = (int)(s % (uint64_t)nl); lockmgr_lock(&LK[k]); cnt[k]++; int two = k + 1 < nl && (s >> 20) % 4 == 0; if (two) { lockmgr_lock(&LK[k + 1]); cnt[k + 1]++; } delay(); if (two) lockmgr_unlock(&LK[k + 1]); lockmgr_unlock(&LK[k]); } return 0; }
static void *other(void *a) { lockmgr *l = a; for (int i = 0; i < 20; i++) { lockmgr_lock(l); lockmgr_unlock(l); } return 0; }
static void locks(void)
{
    pthread_t t[8]; int nt = 2 + (int)vrn(6), m0 = mlive; nl = 1 + (int)vrn(4); per = 10 + (int)vrn(100); dly = vrp(60); vh_case("%d locks, %d threads", nl, nt); memset(cnt, 0, sizeof cnt); long want[4] = { 0 };
    for (int i = 0; i < nl; i++) { LK[i] = Mutex_locker; LK[i].opaq = (void *)16; lockmgr_create(&LK[i]); for (int j = 0; j < i; j++) if (LK[i].opaq == LK[j].opaq) BAD("lock:shared", "two locks share their state"); } if (Mutex_locker.opaq) BAD("lock:prototype", "the prototype is changed");
    for (int i = 0; i < nt; i++) { ts[i] = vr(); uint64_t s = ts[i]; for (int j = 0; j < per; j++) { s = vh_mix(s); int k = (int)(s % (uint64_t)nl); want[k]++; if (k + 1 < nl && (s >> 20) % 4 == 0) want[k + 1]++; } }
    alarm(60); for (int i = 0; i < nt; i++) pthread_create(&t[i], 0, locker, (void *)(intptr_t)i); for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
    for (int i = 0; i < nl; i++) if (cnt[i] != want[i]) BAD("lock:exclusion", "counter %d is %ld of %ld", i, cnt[i], want[i]);
    if (nl > 1) { lockmgr_lock(&LK[0]); pthread_create(&t[0], 0, other, &LK[1]); pthread_join(t[0], 0); lockmgr_unlock(&LK[0]); vh_count("independent", 1); } alarm(0); dly = 0;
    for (int i = 0; i < nl; i++) { lockmgr_delete(&LK[i]); lockmgr_lock(&LK[i]); lockmgr_unlock(&LK[i]); lockmgr_delete(&LK[i]); } if (mlive != m0) BAD("lock:leak", "%d mutexes left", mlive - m0);
    vh_count("locked", (uint64_t)(nt * per)); vh_sig(vr());
}
static void nolocks(void)
{
    lockmgr l; memset(&l, (int)vr(), sizeof l); int k = (int)vrn(3), m0 = mlive; vh_case("null lock of kind %d", k); if (k == 0) lockmgr_new_empty(&l); else if (k == 1) l = Null_locker; else { l.create = 0; lockmgr_create(&l); }
    if (k < 2 && vrp(50)) lockmgr_create(&l); alarm(20); for (int i = 0; i < 3; i++) { lockmgr_lock(&l); lockmgr_lock(&l); lockmgr_unlock(&l); } alarm(0); lockmgr_delete(&l); lockmgr_lock(&l); lockmgr_unlock(&l); lockmgr_delete(&l);
    if (mlive != m0) BAD("lock:null", "a null lock creates a mutex"); vh_count("null_locks", 1); vh_sig(vh_h((uint64_t)k, 5));
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        switch (vrn(12)) { case 0: case 1: seq(); break; case 2: initfail(); break; case 3: nolocks(); break; case 4: case 5: destroy(); break; case 6: case 7: locks(); break; default: threads(); }
        vh_count("evals", 1); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

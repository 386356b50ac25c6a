/* C04: blocking bounded queue */
#include "vh.h"
#include <errno.h>
#include <pthread.h>
#include "utils/utils.h"
#include "fast/syncq.h"
#include "fifo.h"
typedef struct { uint64_t id, a; uint32_t b; uint8_t c; uint64_t d; } item;
static inline item mk(uint64_t id) { item x; memset(&x, 0, sizeof x); x.id = id; x.a = vh_mix(id); x.b = (uint32_t)vh_mix(id + 1); x.c = (uint8_t)(id * 7); x.d = ~id; return x; }
static inline int okitem(const item *x) { return x->a == vh_mix(x->id) && x->b == (uint32_t)vh_mix(x->id + 1) && x->c == (uint8_t)(x->id * 7) && x->d == ~x->id; }
#define MAXC 16
SYNCQ_TYPEDEF(sq, item, MAXC);
static __attribute__((noinline)) void s_enq(sq *q, item x) { SYNCQ_ENQ(q, x); }
static __attribute__((noinline)) item s_deq(sq *q) { return SYNCQ_DEQ(q); }
static __attribute__((noinline)) void s_move(sq *to, sq *from) { SYNCQ_ENQ(to, SYNCQ_DEQ(from)); }
static int CAP, NP, NC, K;
static void pend_check(int cap)
{
    /* enqueues finished minus dequeues begun never exceeds the capacity */
    for (int i = 0; i < nFE; i++) if (!FE[i].deq && FE[i].ok) { int n = 0; uint64_t t = FE[i].t1; for (int j = 0; j < nFE; j++) { if (!FE[j].deq && FE[j].ok && FE[j].t1 <= t) n++; if (FE[j].deq && FE[j].t0 < t) n--; }
        if (n > cap) { vh_viol("syncq:capacity", "%d items pending in a queue of %d", n, cap); return; } }
}
#if defined(VH_FIB)
#include "fib.h"
static sq *Q; static int PRE, ROT;
static void prod(void *a)
{
    int th = (int)(intptr_t)a;
    for (int k = 0; k < K; k++) { item x = mk((uint64_t)(th + 1) * 1000 + (uint64_t)k);
        fib_nopreempt(1); int e = fev_begin(0, th, fib_now()); FE[e].v = x.id; fib_nopreempt(0); s_enq(Q, x); fib_nopreempt(1); FE[e].ok = 1; FE[e].t1 = fib_now(); fib_nopreempt(0); }
}
static void cons(void *a)
{
    int th = (int)(intptr_t)a, quota = NP * K / NC + (th < NP * K % NC);
    for (int k = 0; k < quota; k++) { fib_nopreempt(1); int e = fev_begin(1, 50 + th, fib_now()); fib_nopreempt(0); item x = s_deq(Q); fib_nopreempt(1); FE[e].ok = 1; FE[e].v = x.id; FE[e].t1 = fib_now(); if (!okitem(&x)) vh_viol("syncq:torn", "item %llx incomplete", (unsigned long long)x.id); fib_nopreempt(0); }
}
static void fmain(void *a)
{
    (void)a; int id[12], n = 0; int r = SYNCQ_INIT(Q, (size_t)CAP); if (r) vh_viol("syncq:init", "init returned %d", r);
    /* an uncontended fill and drain must not block: up to the capacity it fits */
    for (int i = 0; i < PRE; i++) s_enq(Q, mk(700 + (uint64_t)i));
    for (int i = 0; i < ROT; i++) { s_move(Q, Q); vh_count("moved", 1); }     /* first to last, in one expression */
    for (int i = 0; i < PRE; i++) { item x = s_deq(Q); if (x.id != 700 + (uint64_t)((i + ROT) % PRE) || !okitem(&x)) vh_viol("syncq:rotate", "item %d after %d rotations is %llu", i, ROT, (unsigned long long)x.id); }
    for (int i = 0; i < NP; i++) id[n++] = fib_spawn(prod, (void *)(intptr_t)i);
    for (int i = 0; i < NC; i++) id[n++] = fib_spawn(cons, (void *)(intptr_t)i);
    for (int i = 0; i < n; i++) fib_join(id[i]);
    SYNCQ_FINI(Q);
}
static void fibmode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        fev_reset(); NP = 1 + (int)vrn(4); NC = 1 + (int)vrn(4); CAP = 1 + (int)vrn(vrp(70) ? 4 : MAXC); K = 1 + (int)vrn(8); PRE = vrp(50) ? CAP : vrp(30) ? (int)vrn((uint64_t)CAP) : 0; ROT = PRE && vrp(40) ? 1 + (int)vrn(5) : 0;
        vh_case("fib np=%d nc=%d cap=%d k=%d pre=%d", NP, NC, CAP, K, PRE);
        /* exact storage: a typed queue of CAP elements */
        Q = malloc(offsetof(sq, e) + (size_t)CAP * sizeof(item)); memset(Q, 0xa5, offsetof(sq, e));
        int r = fib_run(vr(), fmain, 0, 400000);
        if (r == FIB_DEADLOCK) vh_viol("syncq:deadlock", "%s", fib_why());
        else if (r == FIB_MISUSE) vh_viol("syncq:misuse", "%s", fib_why());
        else if (r == FIB_STEPS) vh_viol("syncq:livelock", "%s", fib_why());
        else { fifo_check("syncq", CAP, 1); pend_check(CAP); }
        vh_count("evals", 1); vh_count("schedules", 1); vh_count("switches", fib_switches()); vh_count("events", (uint64_t)nFE); vh_sig(fifo_sig(fib_schedhash()));
        if (i < 2) vh_sample("schedule: %d producers x %d, %d consumers, capacity %d, %llu context switches", NP, K, NC, CAP, (unsigned long long)fib_switches());
        free(Q);
    }
}
#else
#if defined(VH_DELAY)
void delay_seed(uint64_t, int); unsigned long delay_hits(void);
#endif
static sq QQ; static uint64_t PER; static uint8_t *seen; static _Atomic uint64_t nd; static _Atomic int bad;
static void *fp(void *a) { uint64_t th = (uint64_t)(intptr_t)a; for (uint64_t k = 1; k <= PER; k++) s_enq(&QQ, mk(th << 40 | k)); return 0; }
static void *fc(void *a)
{
    uint64_t c = (uint64_t)(intptr_t)a, last[8] = {0}, q = PER * (uint64_t)NP / (uint64_t)NC + (c < PER * (uint64_t)NP % (uint64_t)NC);
    for (uint64_t k = 0; k < q; k++) { item x = s_deq(&QQ); uint64_t p = x.id >> 40, s = x.id & ((1ull << 40) - 1);
        if (!okitem(&x) || p >= (uint64_t)NP || !s || s > PER) { if (bad++ < 3) vh_viol("syncq:free-torn", "corrupt item"); continue; }
        if (s <= last[p]) { if (bad++ < 3) vh_viol("syncq:free-order", "producer %llu: %llu after %llu", (unsigned long long)p, (unsigned long long)s, (unsigned long long)last[p]); } last[p] = s;
        if (__atomic_exchange_n(&seen[p * PER + s - 1], 1, __ATOMIC_RELAXED)) { if (bad++ < 3) vh_viol("syncq:free-dup", "item twice"); } nd++; }
    return 0;
}
static void freemode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        NP = 1 + (int)vrn(4); NC = 1 + (int)vrn(4); CAP = 1 + (int)vrn(MAXC); PER = 200 + vrn(vh_thorough ? 10000 : 1500);
        vh_case("free np=%d nc=%d cap=%d per=%llu", NP, NC, CAP, (unsigned long long)PER);
#if defined(VH_DELAY)
        delay_seed(vr(), 3 + (int)vrn(6));
#endif
        SYNCQ_INIT(&QQ, (size_t)CAP); seen = calloc((size_t)NP, PER); nd = 0; pthread_t t[8]; int n = 0;
        for (int k = 0; k < NP; k++) pthread_create(&t[n++], 0, fp, (void *)(intptr_t)k);
        for (int k = 0; k < NC; k++) pthread_create(&t[n++], 0, fc, (void *)(intptr_t)k);
        for (int k = 0; k < n; k++) pthread_join(t[k], 0);
        if (!bad && nd != PER * (uint64_t)NP) vh_viol("syncq:free-lost", "items lost");
        SYNCQ_FINI(&QQ); free(seen); vh_count("evals", 1); vh_count("free_items", nd); vh_sig(vh_h(vh_h(PER, (uint64_t)CAP), (uint64_t)(NP * 8 + NC)));
    }
#if defined(VH_DELAY)
    vh_count("injected_delays", delay_hits());
#endif
}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv);
#if defined(VH_FIB)
    fibmode();
#else
    freemode();
#endif
    return vh_end();
}

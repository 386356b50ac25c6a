/* C01: MPMC bounded queue.  modes: fib (controlled schedules), free (threads; TSan or delays), model */
#include "vh.h"
#include <assert.h>
#include <pthread.h>
#include "utils/utils.h"
#include "fast/mpmc_bounded_queue.h"
#include "fifo.h"

typedef struct { uint64_t id, a; uint32_t b; uint8_t c; uint64_t d; } item;
static inline item mk(uint64_t id) { item x; memset(&x, 0, sizeof x); x.id = id; x.a = vh_mix(id); x.b = (uint32_t)vh_mix(id + 1); x.c = (uint8_t)(id * 7); x.d = ~id; return x; }
static inline int okitem(const item *x) { return x->a == vh_mix(x->id) && x->b == (uint32_t)vh_mix(x->id + 1) && x->c == (uint8_t)(x->id * 7) && x->d == ~x->id; }
MPMC_QUEUE_TYPE(iq, item);
MPMC_QUEUE_TYPE(bq, uint8_t);

/* operations as functions, so that the recorder brackets exactly the operation */
static __attribute__((noinline)) int q_enq(iq *q, item x) { return MPMC_QUEUE_ENQ(q, x); }
static __attribute__((noinline)) int q_deq(iq *q, item *x) { return MPMC_QUEUE_DEQ(q, *x); }
static __attribute__((noinline)) void q_enqw(iq *q, item x) { MPMC_QUEUE_ENQ_WAIT(q, x); }
static __attribute__((noinline)) void q_deqw(iq *q, item *x) { MPMC_QUEUE_DEQ_WAIT(q, *x); }

static void model(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        size_t want = 1 + vrsz(200), cap = 1; while (cap < want) cap <<= 1;
        vh_case("model want=%zu", want);
        iq *q = MPMC_QUEUE_NEW(iq, want);
        uint64_t hd = 0, tl = 0; int n = (int)(cap * 3 + vrn(400)), bias = (int)vrr(20, 80); uint64_t sig = want;
        if (MPMC_QUEUE_CAP(q) != cap) vh_viol("mpmc:cap", "capacity %zu for requested %zu, expected %zu", MPMC_QUEUE_CAP(q), want, cap);
        for (int k = 0; k < n; k++) {
            if (vrn(60) == 0) bias = (int)vrr(5, 95);
            int op = vrp(bias), w = vrp(40), r;
            if (op) {
                item x = mk(hd + 1);
                if (w && hd - tl < cap) { q_enqw(q, x); r = 1; } else r = q_enq(q, x);
                if (r != (hd - tl < cap)) vh_viol("mpmc:model-enq", "enqueue returned %d with %llu of %zu used", r, (unsigned long long)(hd - tl), cap);
                if (r) hd++;
            } else {
                item x = mk(0);
                if (w && hd > tl) { q_deqw(q, &x); r = 1; } else r = q_deq(q, &x);
                if (r != (hd > tl)) vh_viol("mpmc:model-deq", "dequeue returned %d with %llu used", r, (unsigned long long)(hd - tl));
                if (r) { tl++; if (x.id != tl || !okitem(&x)) vh_viol("mpmc:model-value", "dequeued id %llu expected %llu", (unsigned long long)x.id, (unsigned long long)tl); }
            }
            if (MPMC_QUEUE_SIZE(q) != hd - tl) vh_viol("mpmc:size", "size %zu expected %llu", MPMC_QUEUE_SIZE(q), (unsigned long long)(hd - tl));
            if (!!MPMC_QUEUE_FULL_P(q) != (hd - tl == cap)) vh_viol("mpmc:fullp", "full_p %d with %llu of %zu", MPMC_QUEUE_FULL_P(q), (unsigned long long)(hd - tl), cap);
            if (!!MPMC_QUEUE_EMPTY_P(q) != (hd == tl)) vh_viol("mpmc:emptyp", "empty_p wrong");
            if (vrn(300) == 0) { MPMC_QUEUE_RESET(q); tl = hd = 0; vh_count("resets", 1); }
            sig = vh_h(sig, (uint64_t)op * 2 + (uint64_t)r);
        }
        char d[100]; memset(d, 'x', sizeof d); size_t dn = 1 + vrn(99); MPMC_QUEUE_DESC(q, d, dn); if (!memchr(d, 0, dn)) vh_viol("mpmc:desc", "description not terminated");
        MPMC_QUEUE_DEL(q); if (q) vh_viol("mpmc:del", "queue pointer not cleared");
        vh_sig(sig); vh_count("evals", 1); vh_count("model_ops", (uint64_t)n);
        if (i < 2) vh_sample("model: capacity %zu, %d operations, %llu enqueued", cap, n, (unsigned long long)hd);
    }
}

#if defined(VH_FIB)
#include "fib.h"
static iq *Q; static int NP, NC, K, MIX, CAP; static uint64_t nextid;
static void prod(void *a)
{
    int th = (int)(intptr_t)a;
    for (int k = 0; k < K; k++) {
        uint64_t id = (uint64_t)(th + 1) * 1000 + (uint64_t)k + 1; item x = mk(id);
        int w = MIX == 0 || MIX == 3 ? 0 : MIX == 1 ? 1 : (int)((vh_mix(id * 31 + vh_curcase) >> 20) & 1), tries = 0;
        for (;;) {
            fib_nopreempt(1); int e = fev_begin(0, th, fib_now()); FE[e].v = id; fib_nopreempt(0);
            int r = 1; if (w) q_enqw(Q, x); else r = q_enq(Q, x);
            fib_nopreempt(1); FE[e].ok = r; FE[e].t1 = fib_now(); if (!r) fev_failed(e); fib_nopreempt(0);
            if (r || (MIX == 3 && ++tries > 2)) break;
            fib_yield();
        }
    }
}
static void cons(void *a)
{
    int th = (int)(intptr_t)a; int quota = NP * K / NC + (th - NP < NP * K % NC);
    for (int k = 0; k < quota; k++) {
        int w = MIX == 0 ? 0 : MIX == 1 ? 1 : (int)((vh_mix((uint64_t)(th * 100 + k) + vh_curcase) >> 20) & 1), tries = 0;
        if (MIX == 3) w = 0;
        for (;;) {
            item x = mk(0);
            fib_nopreempt(1); int e = fev_begin(1, th, fib_now()); fib_nopreempt(0);
            int r = 1; if (w) q_deqw(Q, &x); else r = q_deq(Q, &x);
            fib_nopreempt(1); FE[e].ok = r; FE[e].t1 = fib_now(); FE[e].v = x.id; if (!r) fev_failed(e);
            if (r && !okitem(&x)) vh_viol("mpmc:torn", "item %llx was not completely written when dequeued", (unsigned long long)x.id);
            fib_nopreempt(0);
            if (r || (MIX == 3 && ++tries > 2)) break;
            fib_yield();
        }
    }
}
static void fmain(void *a)
{
    (void)a; int id[8], n = 0;
    for (int i = 0; i < NP; i++) id[n++] = fib_spawn(prod, (void *)(intptr_t)i);
    for (int i = 0; i < NC; i++) id[n++] = fib_spawn(cons, (void *)(intptr_t)(NP + i));
    for (int i = 0; i < n; i++) fib_join(id[i]);
    fib_nopreempt(1);
    /* quiescent queries and drain */
    size_t len = 0; for (int i = 0; i < nFE; i++) if (FE[i].ok) len += FE[i].deq ? (size_t)-1 : 1;
    if (MPMC_QUEUE_SIZE(Q) != len) vh_viol("mpmc:quiescent-size", "size %zu, contents %zu", MPMC_QUEUE_SIZE(Q), len);
    if (!!MPMC_QUEUE_EMPTY_P(Q) != (len == 0) || !!MPMC_QUEUE_FULL_P(Q) != (len == (size_t)CAP)) vh_viol("mpmc:quiescent-flags", "empty %d full %d with %zu of %d", MPMC_QUEUE_EMPTY_P(Q), MPMC_QUEUE_FULL_P(Q), len, CAP);
    for (;;) { item x = mk(0); int e = fev_begin(1, 99, fib_now()); int r = q_deq(Q, &x); FE[e].ok = r; FE[e].v = x.id; FE[e].t1 = fib_now(); if (!r) break; if (!okitem(&x)) vh_viol("mpmc:torn", "drained item %llx corrupt", (unsigned long long)x.id); }
}
static void fibmode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        fev_reset(); nextid = 0; NP = 1 + (int)vrn(4); NC = 1 + (int)vrn(4); CAP = 1 << vrn(4); MIX = (int)vrn(4); K = 1 + (int)vrn(vrp(20) ? 20 : 5);
        if (CAP == 1 && vrp(70)) CAP = 2;
        /* the capacity-1 queue: turn numbers of adjacent tickets are still distinct */
        vh_case("np=%d nc=%d cap=%d mix=%d k=%d", NP, NC, CAP, MIX, K);
        Q = MPMC_QUEUE_NEW(iq, (size_t)CAP);
        int r = fib_run(vr(), fmain, 0, 400000);
        if (r == FIB_STEPS) {
            vh_viol("mpmc:livelock", "threads did not finish: %s", fib_why());
        } else fifo_check("mpmc", CAP, 1);
        vh_count("evals", 1); vh_count("schedules", 1); vh_count("switches", fib_switches()); vh_count("events", (uint64_t)nFE);
        vh_sig(fifo_sig(fib_schedhash()));
        if (i < 2) vh_sample("schedule of %d producers, %d consumers, capacity %d, %llu context switches inside operations, %d recorded operations", NP, NC, CAP, (unsigned long long)fib_switches(), nFE);
        MPMC_QUEUE_DEL(Q);
    }
}
#else
/* free-running threads; consumers count and check per-producer order */
#if defined(VH_DELAY)
void delay_seed(uint64_t, int); unsigned long delay_hits(void);
#endif
static iq *Q; static int NP, NC, MIX; static uint64_t PER; static pthread_barrier_t B;
static _Atomic uint64_t ndeq; static uint8_t *seen; static _Atomic int badn;
static void *fprod(void *a)
{
    uint64_t th = (uint64_t)(intptr_t)a; pthread_barrier_wait(&B);
    for (uint64_t k = 0; k < PER; k++) { item x = mk(th << 40 | (k + 1)); int w = MIX == 1 || (MIX == 2 && (k & 3) == 1);
        if (w) q_enqw(Q, x); else while (!q_enq(Q, x)) sched_yield(); }
    return 0;
}
static void *fcons(void *a)
{
    uint64_t c = (uint64_t)(intptr_t)a, last[16] = {0}; uint64_t quota = PER * (uint64_t)NP / (uint64_t)NC + (c < PER * (uint64_t)NP % (uint64_t)NC);
    pthread_barrier_wait(&B);
    for (uint64_t k = 0; k < quota; k++) {
        item x = mk(0); int w = MIX == 1 || (MIX == 2 && (k % 3) == 1);
        if (w) q_deqw(Q, &x); else while (!q_deq(Q, &x)) sched_yield();
        uint64_t p = x.id >> 40, s = x.id & ((1ull << 40) - 1);
        if (!okitem(&x) || p >= (uint64_t)NP || s == 0 || s > PER) { if (badn++ < 3) vh_viol("mpmc:free-torn", "corrupt item %llx", (unsigned long long)x.id); continue; }
        if (s <= last[p]) { if (badn++ < 3) vh_viol("mpmc:free-order", "producer %llu: %llu after %llu at one consumer", (unsigned long long)p, (unsigned long long)s, (unsigned long long)last[p]); }
        last[p] = s;
        if (__atomic_exchange_n(&seen[p * PER + s - 1], 1, __ATOMIC_RELAXED)) { if (badn++ < 3) vh_viol("mpmc:free-dup", "item %llx twice", (unsigned long long)x.id); }
        atomic_fetch_add_explicit(&ndeq, 1, memory_order_relaxed);
    }
    return 0;
}
static void freemode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        NP = 1 + (int)vrn(4); NC = 1 + (int)vrn(4); MIX = (int)vrn(3); size_t cap = 1u << vrn(8); PER = 200 + vrn(vh_thorough ? 20000 : 3000);
#if defined(VH_DELAY)
        delay_seed(vr(), 3 + (int)vrn(6));
#endif
        if (MIX && NP + NC > 6) { NP = 3; NC = 3; }   /* spinning waits need a core each */
        vh_case("free np=%d nc=%d cap=%zu mix=%d per=%llu", NP, NC, cap, MIX, (unsigned long long)PER);
        Q = MPMC_QUEUE_NEW(iq, cap); seen = calloc((size_t)NP, PER); ndeq = 0;
        pthread_barrier_init(&B, 0, (unsigned)(NP + NC)); pthread_t t[16]; int n = 0;
        for (int k = 0; k < NP; k++) pthread_create(&t[n++], 0, fprod, (void *)(intptr_t)k);
        for (int k = 0; k < NC; k++) pthread_create(&t[n++], 0, fcons, (void *)(intptr_t)k);
        for (int k = 0; k < n; k++) pthread_join(t[k], 0);
        pthread_barrier_destroy(&B);
        if (ndeq != PER * (uint64_t)NP && !badn) vh_viol("mpmc:free-lost", "%llu of %llu items", (unsigned long long)ndeq, (unsigned long long)(PER * (uint64_t)NP));
        if (MPMC_QUEUE_SIZE(Q) || !MPMC_QUEUE_EMPTY_P(Q)) vh_viol("mpmc:free-notempty", "queue not empty at the end");
        vh_count("evals", 1); vh_count("free_items", ndeq); vh_sig(vh_h(vh_h(vh_h((uint64_t)NP, (uint64_t)NC), cap * 4 + (uint64_t)MIX), PER));
        if (i < 1) vh_sample("free run: %d producers x %llu items, %d consumers, capacity %zu", NP, (unsigned long long)PER, NC, cap);
        free(seen); MPMC_QUEUE_DEL(Q);
    }
#if defined(VH_DELAY)
    vh_count("injected_delays", delay_hits());
#endif
}
#endif

int main(int argc, char **argv)
{
    vh_init(argc, argv);
    if (!strcmp(vh_mode, "model")) model();
#if defined(VH_FIB)
    else fibmode();
#else
    else freemode();
#endif
    return vh_end();
}

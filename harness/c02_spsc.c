/* C02: SPSC queue */
#include "vh.h"
#include <assert.h>
#include <pthread.h>
#include "utils/utils.h"
#include "fast/spsc_bounded_queue.h"
#include "fifo.h"
typedef struct { uint64_t id, a; uint32_t b; uint8_t c; uint64_t d; } item;
static inline item mk(uint64_t id) { item x; memset(&x, 0, sizeof x); x.id = id; x.a = vh_mix(id); x.b = (uint32_t)vh_mix(id + 1); x.c = (uint8_t)(id * 7); x.d = ~id; return x; }
static inline int okitem(const item *x) { return x->a == vh_mix(x->id) && x->b == (uint32_t)vh_mix(x->id + 1) && x->c == (uint8_t)(x->id * 7) && x->d == ~x->id; }
SPSCQ_DYN_TYPEDEF(dq, item);
SPSCQ_TYPEDEF(q5, item, 5);
SPSCQ_TYPEDEF(q16, uint64_t, 16);
SPSCQ_TYPEDEF(q1, uint8_t, 2);
static __attribute__((noinline)) int d_enq(dq *q, item x) { return SPSCQ_ENQ(q, x); }
static __attribute__((noinline)) int d_deq(dq *q, item *x) { return SPSCQ_DEQ(q, *x); }

#define MODEL(T, ET, MKV, EQ, INIT, FINI, SZ) do { \
    T *q = malloc(sizeof *q); memset(q, 0xa5, sizeof *q); INIT; uint64_t hd = 0, tl = 0; size_t cap = (size_t)(SZ) - 1; int n = (int)vrn(600), bias = (int)vrr(10, 90); \
    for (int k = 0; k < n; k++) { if (!vrn(50)) bias = (int)vrr(5, 95); \
        if (vrp(bias)) { ET x = MKV(hd + 1); int r = SPSCQ_ENQ(q, x); if (!!r != (hd - tl < cap)) vh_viol("spsc:model-enq", #T " enq=%d used %llu cap %zu", r, (unsigned long long)(hd - tl), cap); if (r) hd++; sig = vh_h(sig, 2 + !!r); } \
        else { ET x = MKV(0); int r = SPSCQ_DEQ(q, x); if (!!r != (hd > tl)) vh_viol("spsc:model-deq", #T " deq=%d used %llu", r, (unsigned long long)(hd - tl)); if (r) { tl++; ET w = MKV(tl); if (!(EQ)) vh_viol("spsc:model-value", #T " wrong item, expected number %llu", (unsigned long long)tl); } sig = vh_h(sig, !!r); } \
        if (SPSCQ_SIZE(q) != hd - tl) vh_viol("spsc:size", #T " size %u expected %llu", (unsigned)SPSCQ_SIZE(q), (unsigned long long)(hd - tl)); \
        if (!!SPSCQ_FULL_P(q) != (hd - tl == cap) || !!SPSCQ_EMPTY_P(q) != (hd == tl)) vh_viol("spsc:flags", #T " full %d empty %d used %llu", SPSCQ_FULL_P(q), SPSCQ_EMPTY_P(q), (unsigned long long)(hd - tl)); \
        if (!vrn(200)) { SPSCQ_RESET(q); hd = tl = 0; if (!SPSCQ_EMPTY_P(q) || SPSCQ_SIZE(q)) vh_viol("spsc:reset", #T " not empty after reset"); vh_count("resets", 1); } \
    } vh_count("model_ops", (uint64_t)n); FINI; free(q); } while (0)
#define MK8(x) ((uint8_t)(x))
#define MK64(x) ((uint64_t)vh_mix(x))
static void model(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        size_t sz = 2 + vrsz(300); vh_case("model sz=%zu", sz); uint64_t sig = sz;
        switch (vrn(4)) {
        case 0: MODEL(q5, item, mk, okitem(&x) && x.id == w.id, SPSCQ_INIT(q, 5), (void)0, 5); break;
        case 1: MODEL(q16, uint64_t, MK64, x == w, SPSCQ_INIT(q, 16), (void)0, 16); break;
        case 2: MODEL(q1, uint8_t, MK8, x == w, SPSCQ_INIT(q, 2), (void)0, 2); break;
        default: MODEL(dq, item, mk, okitem(&x) && x.id == w.id, SPSCQ_DYN_INIT(q, sz), SPSCQ_DYN_FINI(q), sz); break;
        }
        vh_sig(sig); vh_count("evals", 1);
    }
}
#if defined(VH_FIB)
#include "fib.h"
static dq *Q; static int K, MIX; static size_t SZ;
static void prod(void *a)
{
    (void)a;
    for (int k = 0; k < K; k++) { item x = mk(1000 + (uint64_t)k); int tries = 0; for (;;) {
        fib_nopreempt(1); int e = fev_begin(0, 0, fib_now()); FE[e].v = x.id; fib_nopreempt(0);
        int r = d_enq(Q, x);
        fib_nopreempt(1); FE[e].ok = r; FE[e].t1 = fib_now(); if (!r) fev_failed(e); fib_nopreempt(0);
        if (r || (MIX && ++tries > 3)) break; fib_yield(); } }
}
static void cons(void *a)
{
    (void)a;
    for (int k = 0; k < K; k++) { item x = mk(0); int tries = 0; for (;;) {
        fib_nopreempt(1); int e = fev_begin(1, 1, fib_now()); fib_nopreempt(0);
        int r = d_deq(Q, &x);
        fib_nopreempt(1); FE[e].ok = r; FE[e].v = x.id; FE[e].t1 = fib_now(); if (!r) fev_failed(e);
        if (r && !okitem(&x)) vh_viol("spsc:torn", "item %llx visible before it was completely written", (unsigned long long)x.id); fib_nopreempt(0);
        if (r || (MIX && ++tries > 3)) break; fib_yield(); } }
}
static void fmain(void *a)
{
    (void)a; int p = fib_spawn(prod, 0), c = fib_spawn(cons, 0); fib_join(p); fib_join(c); fib_nopreempt(1);
    size_t len = 0; for (int i = 0; i < nFE; i++) if (FE[i].ok && FE[i].t1 != ~0ull) len += FE[i].deq ? (size_t)-1 : 1;
    if (SPSCQ_SIZE(Q) != len || !!SPSCQ_EMPTY_P(Q) != (len == 0) || !!SPSCQ_FULL_P(Q) != (len == SZ - 1)) vh_viol("spsc:quiescent", "size %u empty %d full %d, contents %zu of %zu", (unsigned)SPSCQ_SIZE(Q), SPSCQ_EMPTY_P(Q), SPSCQ_FULL_P(Q), len, SZ - 1);
    for (;;) { item x = mk(0); int e = fev_begin(1, 2, fib_now()); int r = d_deq(Q, &x); FE[e].ok = r; FE[e].v = x.id; FE[e].t1 = fib_now(); if (!r) break; }
}
static void fibmode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        fev_reset(); SZ = 2 + vrn(vrp(80) ? 4 : 12); K = 1 + (int)vrn(30); MIX = vrp(40);
        vh_case("fib sz=%zu k=%d giveup=%d", SZ, K, MIX);
        dq q; Q = &q; SPSCQ_DYN_INIT(Q, SZ);
        int r = fib_run(vr(), fmain, 0, 400000);
        if (r == FIB_STEPS) vh_viol("spsc:livelock", "threads did not finish: %s", fib_why()); else fifo_check("spsc", (int)SZ - 1, 1);
        vh_count("evals", 1); vh_count("schedules", 1); vh_count("switches", fib_switches()); vh_count("events", (uint64_t)nFE); vh_sig(fifo_sig(fib_schedhash()));
        if (i < 2) vh_sample("schedule: ring size %zu, %d items, %llu context switches inside operations, %d operations", SZ, K, (unsigned long long)fib_switches(), nFE);
        SPSCQ_DYN_FINI(Q);
    }
}
#else
#if defined(VH_DELAY)
void delay_seed(uint64_t, int); unsigned long delay_hits(void);
#endif
static dq *Q; static uint64_t PER;
static void *fp(void *a) { (void)a; for (uint64_t k = 1; k <= PER; k++) { item x = mk(k); while (!d_enq(Q, x)) sched_yield(); } return 0; }
static void *fc(void *a) { (void)a; int bad = 0; for (uint64_t k = 1; k <= PER; k++) { item x = mk(0); while (!d_deq(Q, &x)) sched_yield(); if ((x.id != k || !okitem(&x)) && bad++ < 3) vh_viol("spsc:free", "got item %llx (intact %d), expected %llx", (unsigned long long)x.id, okitem(&x), (unsigned long long)k); if (bad >= 3) return 0; } return 0; }
static void freemode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        size_t sz = 2 + vrsz(200); PER = 500 + vrn(vh_thorough ? 60000 : 6000); vh_case("free sz=%zu n=%llu", sz, (unsigned long long)PER);
#if defined(VH_DELAY)
        delay_seed(vr(), 3 + (int)vrn(6));
#endif
        dq q; Q = &q; SPSCQ_DYN_INIT(Q, sz); pthread_t a, b; pthread_create(&a, 0, fp, 0); pthread_create(&b, 0, fc, 0); pthread_join(a, 0); pthread_join(b, 0);
        if (SPSCQ_SIZE(Q)) vh_viol("spsc:free-notempty", "queue not empty at the end");
        SPSCQ_DYN_FINI(Q); vh_count("evals", 1); vh_count("free_items", PER); vh_sig(vh_h(sz, PER));
    }
#if defined(VH_DELAY)
    vh_count("injected_delays", delay_hits());
#endif
}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    if (!strcmp(vh_mode, "model")) model();
#if defined(VH_FIB)
    else fibmode();
#else
    else freemode();
#endif
    return vh_end();
}

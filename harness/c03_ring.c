/* C03: bulk ring buffer */
#include "vh.h"
#include <assert.h>
#include <pthread.h>
#include "utils/utils.h"
#include "fast/ringbuf.h"
#include "fifo.h"
#define MAXB 40
/* value: thread<<24 | bulk<<8 | index */
static inline void *V(unsigned th, unsigned bulk, unsigned ix) { return (void *)(uintptr_t)(0x10000000000ull | (uint64_t)th << 32 | (uint64_t)bulk << 8 | ix); }
/* api: 0 single, 1 bulk (fixed), 2 burst; dflt: use the default-mode entry points */
static __attribute__((noinline)) int enq(struct rte_ring *r, int sp, int dflt, int api, void **t, unsigned n)
{
    if (dflt) return api == 0 ? rte_ring_enqueue(r, t[0]) : api == 1 ? rte_ring_enqueue_bulk(r, t, n) : (int)rte_ring_enqueue_burst(r, t, n);
    if (sp) return api == 0 ? rte_ring_sp_enqueue(r, t[0]) : api == 1 ? rte_ring_sp_enqueue_bulk(r, t, n) : (int)rte_ring_sp_enqueue_burst(r, t, n);
    return api == 0 ? rte_ring_mp_enqueue(r, t[0]) : api == 1 ? rte_ring_mp_enqueue_bulk(r, t, n) : (int)rte_ring_mp_enqueue_burst(r, t, n);
}
static __attribute__((noinline)) int deq(struct rte_ring *r, int sc, int dflt, int api, void **t, unsigned n)
{
    if (dflt) return api == 0 ? rte_ring_dequeue(r, t) : api == 1 ? rte_ring_dequeue_bulk(r, t, n) : (int)rte_ring_dequeue_burst(r, t, n);
    if (sc) return api == 0 ? rte_ring_sc_dequeue(r, t) : api == 1 ? rte_ring_sc_dequeue_bulk(r, t, n) : (int)rte_ring_sc_dequeue_burst(r, t, n);
    return api == 0 ? rte_ring_mc_dequeue(r, t) : api == 1 ? rte_ring_mc_dequeue_bulk(r, t, n) : (int)rte_ring_mc_dequeue_burst(r, t, n);
}
/* number moved by a call that returned rc */
static unsigned moved(int api, int rc, unsigned n) { if (rc < 0) return 0; return api == 2 ? (unsigned)rc : n; }

static void model(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        unsigned want = 2 + (unsigned)vrsz(150), sz = 1; while (sz < want) sz <<= 1; unsigned cap = sz - 1;
        int fl = (int)vrn(4); unsigned flags = (fl & 1 ? RING_F_SP_ENQ : 0) | (fl & 2 ? RING_F_SC_DEQ : 0);
        vh_case("model want=%u flags=%d", want, fl);
        struct rte_ring *r; void *mem = 0; int from = vrp(30);
        if (from) {
            size_t need = rte_ring_size(sz), extra = vrn(200); size_t have = need + extra, h2 = need - 1 - vrn(need / 2 + 1);
            if (posix_memalign(&mem, 64, have)) abort();
            memset(mem, 0xee, have);
            if (rte_ring_create_from(want, flags, mem, &h2)) vh_viol("ring:create-small", "a ring of %u fitted into less than its size", want);
            r = rte_ring_create_from(want, flags, mem, &have);
            if (!r) { vh_viol("ring:create-from", "creation over %zu bytes failed", need + extra); free(mem); continue; }
            if (have != extra) vh_viol("ring:create-rest", "%zu bytes reported left over, expected %zu", have, extra);
        } else r = rte_ring_create(want, flags);
        unsigned hd = 0, tl = 0; int n = (int)vrn(700), bias = (int)vrr(20, 80); uint64_t sig = want * 4 + (unsigned)fl;
        for (int k = 0; k < n; k++) {
            if (!vrn(40)) bias = (int)vrr(5, 95);
            void *t[MAXB + 4]; unsigned c = 1 + (unsigned)vrsz(MAXB - 1); int api = (int)vrn(3), dflt = vrp(40), s = vrp(50); if (api == 0) c = 1;
            int op = vrp(bias); unsigned used = hd - tl, fr = cap - used, expect;
            if (op) { for (unsigned j = 0; j < c; j++) t[j] = V(0, (hd + j) >> 8, (hd + j) & 255); int rc = enq(r, s, dflt, api, t, c); unsigned m = moved(api, rc, c); expect = api == 2 ? (c < fr ? c : fr) : c <= fr ? c : 0;
                if (m != expect || (api != 2 && expect == 0 && rc >= 0)) vh_viol("ring:model-enq", "api %d enqueue of %u with %u free returned %d", api, c, fr, rc); hd += m; }
            else { memset(t, 0, sizeof t); t[c] = (void *)(uintptr_t)0x77; int rc = deq(r, s, dflt, api, t, c); unsigned m = moved(api, rc, c); expect = api == 2 ? (c < used ? c : used) : c <= used ? c : 0;
                if (m != expect || (api != 2 && expect == 0 && rc >= 0)) vh_viol("ring:model-deq", "api %d dequeue of %u with %u used returned %d", api, c, used, rc);
                for (unsigned j = 0; j < m && j < c; j++) if (t[j] != V(0, (tl + j) >> 8, (tl + j) & 255)) { vh_viol("ring:model-value", "item %u of a dequeue is wrong", j); break; }
                if (t[c] != (void *)(uintptr_t)0x77 || (m < c && t[m] != 0)) vh_viol("ring:model-over", "dequeue wrote beyond the %u items it returned", m); tl += m; }
            used = hd - tl;
            if (rte_ring_count(r) != used || rte_ring_free_count(r) != cap - used || !!rte_ring_full(r) != (used == cap) || !!rte_ring_empty(r) != (used == 0))
                vh_viol("ring:counts", "count %u free %u full %d empty %d with %u of %u used", (unsigned)rte_ring_count(r), (unsigned)rte_ring_free_count(r), rte_ring_full(r), rte_ring_empty(r), used, cap);
            sig = vh_h(sig, (uint64_t)op << 20 | (uint64_t)api << 16 | c << 8 | expect);
        }
        char d[300]; size_t dn = 1 + vrn(299); rte_ring_dump(d, dn, r); if (!memchr(d, 0, dn)) vh_viol("ring:dump", "dump not terminated");
        if (from) free(mem); else rte_ring_destroy(r);
        vh_count("evals", 1); vh_count("model_ops", (uint64_t)n); vh_sig(sig);
    }
}
#if defined(VH_FIB)
#include "fib.h"
static struct rte_ring *R; static int NP, NC, SP, SC, DF, K, GIVE, API; static unsigned CAP, MB; static int left;
struct bulk { int ev0, n; };
static void check_array(void **t, unsigned m)
{
    for (unsigned i = 1; i < m; i++) { uint64_t a = (uint64_t)(uintptr_t)t[i - 1], b = (uint64_t)(uintptr_t)t[i];
        if (a >> 8 == b >> 8 && b != a + 1) vh_viol("ring:bulk-order", "items of one bulk out of order in one dequeue: %llx then %llx", (unsigned long long)a, (unsigned long long)b);
        for (unsigned j = 0; j + 1 < i; j++) { uint64_t c = (uint64_t)(uintptr_t)t[j]; if (c >> 8 == b >> 8 && a >> 8 != b >> 8) vh_viol("ring:bulk-interleaved", "items of one bulk are not contiguous"); } }
}
static void rec(int deqp, int th, uint64_t t0, uint64_t t1, void **t, unsigned m, unsigned n, int api)
{
    for (unsigned j = 0; j < m; j++) { int e = fev_begin(deqp, th, t0); FE[e].ok = 1; FE[e].v = (uint64_t)(uintptr_t)t[j]; FE[e].t1 = t1; FE[e].n = (int)j; }
    (void)n; (void)api;
}
/* partial or failed calls with nothing else in flight are judged against the exact state */
typedef struct { uint64_t t0, t1; int deq, api; unsigned n, m; } call; static call C[4096]; static int nC;
static int begin_call(int d, int api, unsigned n) { int i = nC < 4096 ? nC++ : 4095; C[i].t0 = fib_now(); C[i].t1 = ~0ull; C[i].deq = d; C[i].api = api; C[i].n = n; C[i].m = 0; return i; }
static void prod(void *a)
{
    int th = (int)(intptr_t)a; unsigned bulk = 0;
    for (int k = 0; k < K; k++) {
        void *t[MAXB]; unsigned c = API == 0 ? 1 : 1 + (unsigned)(vh_mix((uint64_t)(th * 100 + k) + vh_curcase) % MB); int api = API == 3 ? (int)(vh_mix((uint64_t)(th * 77 + k)) % 3) : API; if (api == 0) c = 1;
        bulk++; for (unsigned j = 0; j < c; j++) t[j] = V((unsigned)th, bulk, j);
        unsigned done = 0; int tries = 0;
        while (done < c) {
            fib_nopreempt(1); int x = begin_call(0, api, c - done); uint64_t t0 = C[x].t0; fib_nopreempt(0);
            int rc = enq(R, SP, DF, api, t + done, c - done);
            fib_nopreempt(1); unsigned m = moved(api, rc, c - done); C[x].m = m; C[x].t1 = fib_now(); if (m > c - done) vh_viol("ring:enq-count", "burst of %u reported %u", c - done, m);
            rec(0, th, t0, C[x].t1, t + done, m, c - done, api); if (!m && nC > 3000) { nC--; } fib_nopreempt(0);
            done += m; if (m && done < c) { bulk++; for (unsigned j = done; j < c; j++) t[j] = V((unsigned)th, bulk, j); }
            if (done < c) { if (GIVE && ++tries > 3) break; fib_yield(); }
        }
    }
    fib_nopreempt(1); left--; fib_nopreempt(0);
}
static void cons(void *a)
{
    int th = (int)(intptr_t)a; uint64_t q = 0;
    for (;;) {
        void *t[MAXB]; memset(t, 0, sizeof t); unsigned c = 1 + (unsigned)(vh_mix((uint64_t)th * 1000 + q++ + vh_curcase) % MB); int api = API == 3 ? (int)(vh_mix(q * 7 + (uint64_t)th) % 3) : API; if (api == 0) c = 1;
        if (left == 0) { c = 1; }
        fib_nopreempt(1); int wasleft = left; int x = begin_call(1, api, c); uint64_t t0 = C[x].t0; fib_nopreempt(0);
        int rc = deq(R, SC, DF, api, t, c);
        fib_nopreempt(1); unsigned m = moved(api, rc, c); C[x].m = m; C[x].t1 = fib_now(); if (m > c) { vh_viol("ring:deq-count", "dequeue of %u reported %u", c, m); m = c; }
        rec(1, th, t0, C[x].t1, t, m, c, api); check_array(t, m); if (!m && nC > 3000) nC--; fib_nopreempt(0);
        if (!m) { if (wasleft == 0) return; fib_yield(); }
    }
}
static void fmain(void *a)
{
    (void)a; int id[8], n = 0; left = NP;
    for (int i = 0; i < NP; i++) id[n++] = fib_spawn(prod, (void *)(intptr_t)i);
    for (int i = 0; i < NC; i++) id[n++] = fib_spawn(cons, (void *)(intptr_t)(10 + i));
    for (int i = 0; i < n; i++) fib_join(id[i]);
    fib_nopreempt(1);
    size_t len = 0; for (int i = 0; i < nFE; i++) len += FE[i].deq ? (size_t)-1 : 1;
    if (rte_ring_count(R) != len || rte_ring_free_count(R) != CAP - len) vh_viol("ring:quiescent", "count %u free %u, contents %zu of %u", (unsigned)rte_ring_count(R), (unsigned)rte_ring_free_count(R), len, CAP);
    for (;;) { void *t[1] = {0}; uint64_t t0 = fib_now(); int rc = rte_ring_mc_dequeue_bulk(R, t, 1); if (rc < 0) break; rec(1, 99, t0, fib_now(), t, 1, 1, 1); if (nFE > 4000) break; }
}
static void judge_calls(void)
{
    for (int i = 0; i < nC; i++) if (C[i].t1 != ~0ull && C[i].m < C[i].n) {
        int ov = 0; long len = 0;
        for (int j = 0; j < nC; j++) if (j != i && C[j].m) { if (C[j].t0 < C[i].t1 && C[j].t1 > C[i].t0) { ov = 1; break; } if (C[j].t1 < C[i].t0) len += C[j].deq ? -(long)C[j].m : (long)C[j].m; }
        vh_count(ov ? "short_calls_overlapped" : "short_calls_alone", 1); if (ov) continue;
        long room = C[i].deq ? len : (long)CAP - len, expect = C[i].api == 2 ? (room < (long)C[i].n ? room : (long)C[i].n) : room >= (long)C[i].n ? (long)C[i].n : 0;
        if ((long)C[i].m != expect) vh_viol("ring:short-call", "%s of %u (api %d) moved %u with %ld possible and nothing in flight", C[i].deq ? "dequeue" : "enqueue", C[i].n, C[i].api, C[i].m, room);
    }
    /* order inside one bulk, across dequeues */
    for (int a = 0; a < nFE; a++) if (FE[a].deq) for (int b = 0; b < nFE; b++) if (FE[b].deq && FE[b].v >> 8 == FE[a].v >> 8 && FE[b].v > FE[a].v && FE[b].t1 < FE[a].t0) { vh_viol("ring:bulk-fifo", "item %llx of a bulk dequeued before item %llx of it", (unsigned long long)FE[b].v, (unsigned long long)FE[a].v); return; }
}
static void fibmode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        fev_reset(); nC = 0; NP = 1 + (int)vrn(4); NC = 1 + (int)vrn(4); SP = NP == 1 && vrp(60); SC = NC == 1 && vrp(60); DF = vrp(30); API = (int)vrn(4); GIVE = vrp(30); K = 1 + (int)vrn(6);
        unsigned sz = 2u << vrn(5); CAP = sz - 1; MB = 1 + (unsigned)vrn(CAP > 12 ? 12 : CAP);
        vh_case("fib np=%d nc=%d sp=%d sc=%d dflt=%d api=%d sz=%u maxbulk=%u k=%d", NP, NC, SP, SC, DF, API, sz, MB, K);
        R = rte_ring_create(sz, (SP ? RING_F_SP_ENQ : 0) | (SC ? RING_F_SC_DEQ : 0));
        /* start somewhere in the ring */
        for (unsigned s = (unsigned)vrn(sz * 2); s > 0; s--) { void *t[1] = { V(99, 0, 0) }; rte_ring_sp_enqueue_bulk(R, t, 1); rte_ring_sc_dequeue_bulk(R, t, 1); }
        int r = fib_run(vr(), fmain, 0, 600000);
        if (r == FIB_STEPS) vh_viol("ring:livelock", "threads did not finish: %s", fib_why());
        else { fifo_check("ring", (int)CAP, 1); judge_calls(); }
        vh_count("evals", 1); vh_count("schedules", 1); vh_count("switches", fib_switches()); vh_count("events", (uint64_t)nFE); vh_sig(fifo_sig(fib_schedhash()));
        if (i < 2) vh_sample("schedule: %d producers, %d consumers, ring %u, bulks up to %u, %llu context switches inside operations, %d items moved", NP, NC, sz, MB, (unsigned long long)fib_switches(), nFE);
        rte_ring_destroy(R);
    }
}
#else
#if defined(VH_DELAY)
void delay_seed(uint64_t, int); unsigned long delay_hits(void);
#endif
static struct rte_ring *R; static int NP, NC, SP, SC; static uint64_t PER; static uint8_t *seen; static _Atomic uint64_t nd; static _Atomic int bad; static unsigned MB;
typedef struct { uint64_t v[4]; uint64_t th, seq; } obj; static obj *OBJ;
static void *fp(void *a)
{
    uint64_t th = (uint64_t)(intptr_t)a, k = 0, x = th * 77 + 1;
    while (k < PER) { void *t[MAXB]; unsigned c = 1 + (unsigned)(vh_mix(x++) % MB); if (c > PER - k) c = (unsigned)(PER - k);
        for (unsigned j = 0; j < c; j++) { obj *o = &OBJ[th * PER + k + j]; o->th = th; o->seq = k + j; for (int q = 0; q < 4; q++) o->v[q] = vh_mix(th * 1000003 + k + j + (uint64_t)q); t[j] = o; }
        int api = 1 + (int)(x & 1); unsigned done = 0; while (done < c) { int rc = enq(R, SP, 0, api, t + done, c - done); unsigned m = moved(api, rc, c - done); done += m; if (!m) sched_yield(); }
        k += c; }
    return 0;
}
static void *fc(void *a)
{
    uint64_t last[8]; memset(last, 0xff, sizeof last); uint64_t x = (uint64_t)(intptr_t)a * 991 + 5, tot = PER * (uint64_t)NP;
    while (atomic_load_explicit(&nd, memory_order_relaxed) < tot && !bad) { void *t[MAXB]; unsigned c = 1 + (unsigned)(vh_mix(x++) % MB); int api = (x % 5) ? 2 : 1; int rc = deq(R, SC, 0, api, t, c); unsigned m = moved(api, rc, c); if (!m) { sched_yield(); continue; }
        for (unsigned j = 0; j < m; j++) { obj *o = t[j]; int ok = o >= OBJ && o < OBJ + tot; if (ok) { for (int q = 0; q < 4; q++) ok &= o->v[q] == vh_mix(o->th * 1000003 + o->seq + (uint64_t)q); }
            if (!ok) { if (bad++ < 3) vh_viol("ring:free-torn", "pointer %p is not a completely published item", (void *)o); continue; }
            if (last[o->th] != ~0ull && o->seq <= last[o->th]) { if (bad++ < 3) vh_viol("ring:free-order", "producer %llu: %llu after %llu", (unsigned long long)o->th, (unsigned long long)o->seq, (unsigned long long)last[o->th]); }
            last[o->th] = o->seq; if (__atomic_exchange_n(&seen[o->th * PER + o->seq], 1, __ATOMIC_RELAXED)) { if (bad++ < 3) vh_viol("ring:free-dup", "item twice"); } }
        atomic_fetch_add_explicit(&nd, m, memory_order_relaxed); }
    return 0;
}
static void freemode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        NP = 1 + (int)vrn(3); NC = 1 + (int)vrn(3); SP = NP == 1 && vrp(70); SC = NC == 1 && vrp(70); unsigned sz = 2u << vrn(8); MB = 1 + (unsigned)vrn(sz - 1 > 20 ? 20 : sz - 1); PER = 300 + vrn(vh_thorough ? 30000 : 3000);
        vh_case("free np=%d nc=%d sp=%d sc=%d sz=%u mb=%u per=%llu", NP, NC, SP, SC, sz, MB, (unsigned long long)PER);
#if defined(VH_DELAY)
        delay_seed(vr(), 3 + (int)vrn(6));
#endif
        R = rte_ring_create(sz, 0); OBJ = calloc(PER * (uint64_t)NP, sizeof *OBJ); seen = calloc(PER, (size_t)NP); nd = 0; bad = 0; pthread_t t[8]; int n = 0;
        for (int k = 0; k < NP; k++) pthread_create(&t[n++], 0, fp, (void *)(intptr_t)k);
        for (int k = 0; k < NC; k++) pthread_create(&t[n++], 0, fc, (void *)(intptr_t)k);
        for (int k = 0; k < n; k++) { if (bad) { _exit(vh_end()); } pthread_join(t[k], 0); }
        if (!bad && nd != PER * (uint64_t)NP) vh_viol("ring:free-count", "%llu items dequeued of %llu", (unsigned long long)nd, (unsigned long long)(PER * (uint64_t)NP));
        rte_ring_destroy(R); free(OBJ); free(seen); vh_count("evals", 1); vh_count("free_items", nd); vh_sig(vh_h(vh_h(PER, sz), (uint64_t)(NP * 8 + NC)));
    }
#if defined(VH_DELAY)
    vh_count("injected_delays", delay_hits());
#endif
}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    if (!strcmp(vh_mode, "model")) model();
#if defined(VH_FIB)
    else fibmode();
#else
    else freemode();
#endif
    return vh_end();
}

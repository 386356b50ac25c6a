/* FIFO history recorder and checker (distinct values): exactly-once, no invention,
 * linearizable order of the successful operations; failed attempts judged separately. */
#ifndef FIFO_H
#define FIFO_H
#include "vh.h"
typedef struct { uint64_t v, t0, t1; int th, ok, deq, n; } fev;   /* n: capacity-relevant amount */
#define FMAX 4096
static fev FE[FMAX]; static int nFE;
static int Ffree[FMAX], nFfree, Fnfail;
static inline void fev_reset(void) { nFE = nFfree = Fnfail = 0; }
/* a failed attempt changes nothing and excuses nothing: only the first few hundred are kept */
static inline void fev_failed(int i) { if (Fnfail++ > 250) { FE[i].t1 = FE[i].t0 = ~0ull; Ffree[nFfree++] = i; } }
static inline int fev_begin(int deq, int th, uint64_t t) { int i = nFfree ? Ffree[--nFfree] : nFE++; if (i >= FMAX) { vh_emitf("@X", "too many events"); _exit(3); } FE[i].deq = deq; FE[i].th = th; FE[i].t0 = t; FE[i].t1 = ~0ull; FE[i].ok = 0; FE[i].v = 0; return i; }
static int fifo_check(const char *pfx, int cap, int expect_drained)
{
    char key[64]; int bad = 0;
    static int enq_of[FMAX], deq_of[FMAX]; int ne = 0;
    static uint64_t val[FMAX];
    for (int i = 0; i < nFE; i++) if (!FE[i].deq && FE[i].ok) { val[ne] = FE[i].v; enq_of[ne] = i; deq_of[ne] = -1; ne++; }
    for (int i = 0; i < nFE; i++) if (FE[i].deq && FE[i].ok) {
        int k = -1; for (int j = 0; j < ne; j++) if (val[j] == FE[i].v) { k = j; break; }
        if (k < 0) { snprintf(key, sizeof key, "%s:invented", pfx); vh_viol(key, "dequeued value %llx that no successful enqueue produced (thread %d)", (unsigned long long)FE[i].v, FE[i].th); return 1; }
        if (deq_of[k] >= 0) { snprintf(key, sizeof key, "%s:duplicate", pfx); vh_viol(key, "value %llx dequeued twice", (unsigned long long)FE[i].v); return 1; }
        deq_of[k] = i;
        if (FE[i].t1 < FE[enq_of[k]].t0) { snprintf(key, sizeof key, "%s:from-future", pfx); vh_viol(key, "value %llx dequeued before its enqueue began", (unsigned long long)FE[i].v); return 1; }
    }
    for (int a = 0; a < ne; a++) {
        if (expect_drained && deq_of[a] < 0) { snprintf(key, sizeof key, "%s:lost", pfx); vh_viol(key, "value %llx enqueued but never dequeued", (unsigned long long)val[a]); return 1; }
        for (int b = 0; b < ne; b++) if (a != b && FE[enq_of[a]].t1 < FE[enq_of[b]].t0 && deq_of[b] >= 0) {
            if (deq_of[a] < 0 ? expect_drained : FE[deq_of[b]].t1 < FE[deq_of[a]].t0) {
                snprintf(key, sizeof key, "%s:order", pfx); vh_viol(key, "value %llx enqueued before %llx but dequeued after it", (unsigned long long)val[a], (unsigned long long)val[b]); return 1; }
        }
    }
    /* failed attempts with nothing else in flight: the state is known exactly */
    for (int i = 0; i < nFE; i++) if (!FE[i].ok && FE[i].t1 != ~0ull) {
        int overlap = 0, len = 0;
        for (int j = 0; j < nFE; j++) if (j != i) {
            if ((FE[j].ok || FE[j].t1 == ~0ull) && FE[j].t0 < FE[i].t1 && FE[j].t1 > FE[i].t0) { overlap = 1; break; }
            if (FE[j].ok && FE[j].t1 < FE[i].t0) len += FE[j].deq ? -1 : 1;
        }
        vh_count(overlap ? "failed_attempts_overlapped" : "failed_attempts_alone", 1);
        if (overlap) continue;
        if (FE[i].deq && len != 0) { snprintf(key, sizeof key, "%s:false-empty", pfx); vh_viol(key, "dequeue failed with %d items pending and nothing in flight", len); bad = 1; }
        if (!FE[i].deq && len < cap) { snprintf(key, sizeof key, "%s:false-full", pfx); vh_viol(key, "enqueue failed with %d of %d slots used and nothing in flight", len, cap); bad = 1; }
    }
    return bad;
}
static uint64_t fifo_sig(uint64_t h)
{ for (int i = 0; i < nFE; i++) h = vh_h(h, FE[i].v * 8 + (uint64_t)FE[i].deq * 4 + (uint64_t)FE[i].ok * 2) ^ (uint64_t)FE[i].th; return h; }
#endif

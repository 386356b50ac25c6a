/* histories of more than 2^32 operations on one queue: positions and turn counters wrap */
#include "vh.h"
#include <assert.h>
#include <errno.h>
#include <unistd.h>
#include "utils/utils.h"
#include <time.h>
/* on a heavily loaded machine the history ends early rather than not at all; what was reached is counted */
static int late(void) { static unsigned n; static struct timespec a; struct timespec b; if (++n & 0xffff) return 0; clock_gettime(CLOCK_MONOTONIC, &b); if (!a.tv_sec) a = b; return b.tv_sec - a.tv_sec > (vh_thorough ? 2000 : 350); }
#include <signal.h>
#include <sys/time.h>
/* a call that never returns: no element moved during ten seconds of processor time */
static volatile uint64_t moved_; static void stuck(int s) { (void)s; static uint64_t l = ~0ull; if (l == moved_) { vh_viol("queue:long-stuck", "a call does not return after %llu elements", (unsigned long long)moved_); _exit(vh_end()); } l = moved_; }
#ifdef RING
#include "fast/ringbuf.h"
static void run(void)
{
    static void *t[4096]; uint64_t in = 0, out = 0, target = vh_thorough ? (3ull << 32) : (1ull << 32) + (64u << 20), r0 = vr(); unsigned cap = 1024u << vrn(3); struct rte_ring *r = rte_ring_create(cap, (vrp(50) ? RING_F_SP_ENQ : 0) | (vrp(50) ? RING_F_SC_DEQ : 0)); cap--; vh_case("more than 2^32 elements through a ring of %u", cap);
    while (out < target && !vh_nviol && !late()) { moved_ = out;
        r0 ^= r0 << 13; r0 ^= r0 >> 7; r0 ^= r0 << 17; unsigned n = 1 + (unsigned)(r0 % (cap + cap / 8)), used = (unsigned)(in - out), fr = cap - used, api = (r0 >> 40) & 7, k; int rc; if (n < cap / 2 && (r0 >> 50 & 7)) n += cap / 2;
        for (unsigned i = 0; i < n; i++) t[i] = (void *)(uintptr_t)((in + i) * 0x9e3779b97f4a7c15ull);
        if (api < 2) { rc = rte_ring_sp_enqueue_bulk(r, t, n); k = n > fr ? 0 : n; } else if (api < 4) { rc = rte_ring_mp_enqueue_bulk(r, t, n); k = n > fr ? 0 : n; } else if (api < 6) { rc = (int)rte_ring_sp_enqueue_burst(r, t, n); k = n > fr ? fr : n; } else { rc = (int)rte_ring_mp_enqueue_burst(r, t, n); k = n > fr ? fr : n; }
        if (api < 4 ? (rc < 0) != (k == 0) : rc != (int)k) vh_viol("ring:long-enq", "enqueue of %u with %u free after %llu elements returned %d", n, fr, (unsigned long long)in, rc);
        in += k; used += k; if (rte_ring_count(r) != used || rte_ring_free_count(r) != cap - used || !!rte_ring_full(r) != (used == cap) || !!rte_ring_empty(r) != !used) vh_viol("ring:long-count", "count %u free %u with %u of %u used after %llu elements", (unsigned)rte_ring_count(r), (unsigned)rte_ring_free_count(r), used, cap, (unsigned long long)in);
        n = 1 + (unsigned)((r0 >> 20) % (cap + cap / 8)); if (n < cap / 2 && (r0 >> 53 & 7)) n += cap / 2; api = (r0 >> 44) & 7;
        if (api < 2) { rc = rte_ring_sc_dequeue_bulk(r, t, n); k = n > used ? 0 : n; } else if (api < 4) { rc = rte_ring_mc_dequeue_bulk(r, t, n); k = n > used ? 0 : n; } else if (api < 6) { rc = (int)rte_ring_sc_dequeue_burst(r, t, n); k = n > used ? used : n; } else { rc = (int)rte_ring_mc_dequeue_burst(r, t, n); k = n > used ? used : n; }
        if (api < 4 ? (rc < 0) != (k == 0) : rc != (int)k) vh_viol("ring:long-deq", "dequeue of %u with %u used after %llu elements returned %d", n, used, (unsigned long long)out, rc);
        uintptr_t bad = 0; for (unsigned i = 0; i < k; i++) bad |= (uintptr_t)t[i] ^ (uintptr_t)((out + i) * 0x9e3779b97f4a7c15ull); if (bad) vh_viol("ring:long-order", "wrong element among %u after %llu", k, (unsigned long long)out); out += k;
    }
    rte_ring_destroy(r); vh_count("long_elements", out);
}
#elif defined(SPSC)
#include "fast/spsc_bounded_queue.h"
SPSCQ_DYN_TYPEDEF(lq, uint32_t);
static void run(void)
{
    uint64_t in = 0, out = 0, target = (1ull << 32) + (16u << 20), r0 = vr(); unsigned cap = 3 + (unsigned)vrn(60); lq q; SPSCQ_DYN_INIT(&q, cap); vh_case("more than 2^32 elements through a queue of %u", cap); uint32_t x = 0; unsigned full = 0, m;
    while (SPSCQ_ENQ(&q, (uint32_t)in)) { in++; full++; } if (full < cap - 1 || full > cap) vh_viol("spsc:long", "holds %u of %u", full, cap);
    while (out < target && !vh_nviol && !late()) { moved_ = out;
        r0 ^= r0 << 13; r0 ^= r0 >> 7; r0 ^= r0 << 17; m = 1 + (unsigned)(r0 % (full + 1)); uint32_t bad = 0; unsigned k = 0;
        for (; k < m && SPSCQ_DEQ(&q, x); k++) { bad |= x ^ (uint32_t)out; out++; } if (k != (m < full ? m : full) || bad) { vh_viol("spsc:long-order", "%u of %u elements taken, %s, after %llu", k, m, bad ? "wrong" : "right", (unsigned long long)out); }
        if (SPSCQ_SIZE(&q) != in - out) vh_viol("spsc:long-size", "size %u, expected %u", (unsigned)SPSCQ_SIZE(&q), (unsigned)(in - out));
        while (SPSCQ_ENQ(&q, (uint32_t)in)) { in++; if (in - out > full) { vh_viol("spsc:long-full", "more than %u elements accepted", full); break; } } if (in - out != full) vh_viol("spsc:long-full", "full with %u of %u after %llu", (unsigned)(in - out), full, (unsigned long long)in);
    }
    SPSCQ_DYN_FINI(&q); vh_count("long_elements", out);
}
#else
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(lm, uint32_t);
static void run(void)
{
    uint64_t in = 0, out = 0, target = (1ull << 32) + (4u << 20), r0 = vr(); unsigned cap = 2; struct lm *q = MPMC_QUEUE_NEW(struct lm, cap); vh_case("more than 2^32 elements through a queue of %u", cap); uint32_t x = 0; unsigned full = 0;
    while (MPMC_QUEUE_ENQ(q, (uint32_t)in)) { in++; full++; } if (full != cap) vh_viol("mpmc:long", "holds %u of %u", full, cap);
    while (out < target && !vh_nviol && !late()) { moved_ = out;
        r0 ^= r0 << 13; r0 ^= r0 >> 7; r0 ^= r0 << 17; unsigned m = 1 + (unsigned)(r0 % full), bl = (r0 >> 30) & 1, k; uint32_t bad = 0; int last = (r0 >> 40 & 15) == 0;
        if (bl) for (k = 0; k < m; k++) { MPMC_QUEUE_DEQ_WAIT(q, x); bad |= x ^ (uint32_t)out; out++; } else for (k = 0; k < m; k++) { if (!MPMC_QUEUE_DEQ(q, x)) break; bad |= x ^ (uint32_t)out; out++; }
        if (k != m || bad) vh_viol("mpmc:long-order", "%u of %u elements taken, %s, after %llu", k, m, bad ? "wrong" : "right", (unsigned long long)out);
        if (last) { while (out < in && !vh_nviol) { if (!MPMC_QUEUE_DEQ(q, x) || x != (uint32_t)out) vh_viol("mpmc:long-order", "after %llu", (unsigned long long)out); out++; } if (MPMC_QUEUE_DEQ(q, x)) vh_viol("mpmc:long-empty", "an element after %llu", (unsigned long long)out); }
        m = (unsigned)(full - (in - out)); if (bl) while (m--) { MPMC_QUEUE_ENQ_WAIT(q, (uint32_t)in); in++; } else while (m--) { if (!MPMC_QUEUE_ENQ(q, (uint32_t)in)) { vh_viol("mpmc:long-full", "refused with %u of %u after %llu", (unsigned)(in - out), full, (unsigned long long)in); break; } in++; }
        if (last && MPMC_QUEUE_ENQ(q, (uint32_t)in)) vh_viol("mpmc:long-full", "more than %u elements after %llu", full, (unsigned long long)in);
    }
    MPMC_QUEUE_DEL(q); vh_count("long_elements", out);
}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv); signal(SIGVTALRM, stuck); struct itimerval it = { { 10, 0 }, { 10, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    for (uint64_t c = 0; c < vh_cases; c++) { if (!vh_begin(c)) continue; run(); vh_count("evals", 1); vh_sig(vh_h(vr(), c)); vh_sample("%s", vh_casebuf); if (vh_nviol) break; }
    return vh_end();
}

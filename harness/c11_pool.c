/* C11: fixed-size pools against a ledger of live blocks and of the underlying allocator */
#include "vh.h"
#include "utils/mempool.h"
typedef struct { int live, calls, failat; uint64_t total; void *p[4096]; size_t sz[4096]; } led;
static void *l_alloc(void *x, size_t n)
{
    led *l = x; l->calls++; if (l->failat && l->calls >= l->failat) return 0;
    if (l->live >= 4096 || n > 64000000) return 0;
    void *p = malloc(n); memset(p, 0xe7, n); l->p[l->live] = p; l->sz[l->live++] = n; l->total += n; return p;
}
static void l_free(void *x, void *p)
{
    led *l = x; for (int i = 0; i < l->live; i++) if (l->p[i] == p) { free(p); l->p[i] = l->p[--l->live]; l->sz[i] = l->sz[l->live]; return; }
    vh_viol("pool:foreign-free", "returned memory it did not take");
}
typedef struct { unsigned char *p; uint64_t pat; } blk;
static blk B[20000]; static int nb; static void *freed[64]; static int nfreed;
static void paint(blk *b, size_t n) { for (size_t i = 0; i < n; i++) b->p[i] = (unsigned char)vh_mix(b->pat + i / 8); }
static int intact(blk *b, size_t n) { for (size_t i = 0; i < n; i++) if (b->p[i] != (unsigned char)vh_mix(b->pat + i / 8)) return 0; return 1; }
static int cmpb(const void *a, const void *b) { const blk *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        led L; memset(&L, 0, sizeof L); memmgr tr = { l_alloc, l_free, &L };
        unsigned want = vrp(50) ? (unsigned)vrn(70) : vrp(97) ? (unsigned)vrsz(4096) : (unsigned)(0xffffffffu - vrn(20));
        unsigned max = vrp(50) ? 0 : vrp(30) ? 1 : 1 + (unsigned)vrsz(400), mu = vrp(30) ? 0 : vrp(30) ? 1 : 1 + (unsigned)vrsz(100);
        int how = (int)vrn(5); mempool mp, *a = 0; unsigned char *mem = 0; size_t msz = 0; int r, tiny = want > 100000;
        if (tiny) { max = max ? 1 : 0; mu = 1; }
        if (how < 4 && vrp(15)) L.failat = 1 + (int)vrn(4);
        int deftr = how < 4 && vrp(20);
        if (deftr && tiny) want = 100;
        vh_case("block=%u max=%u units=%u how=%d deftraits=%d failat=%d ", want, max, mu, how, deftr, L.failat);
        void *raw = 0;
        if (how == 4) {
            int newp = (int)vrn(2); size_t off = vrp(50) ? 0 : vrn(16); unsigned w = want; if (tiny) w = want;
            msz = vrp(50) ? 1 + vrn(300) : 1 + vrsz(40000); raw = malloc(off + msz); mem = (unsigned char *)raw + off;
            vh_case_add("mem=%zu off=%zu new=%d ", msz, off, newp);
            memset(&mp, 0x5a, sizeof mp); if (newp) { r = mempool_new_from_mem(&a, w, mem, (unsigned)msz); } else { r = mempool_init_from_mem(&mp, w, mem, (unsigned)msz); a = &mp; }
            vh_count(r ? "mem_refused" : "mem_pools", 1);
            uint64_t bs = ((uint64_t)w < 16 ? 16 : w); bs = (bs + 7) & ~7ull;
            if (r == 0 && !tiny) { max = mempool_total_blocks(a); if (max < 1) vh_viol("pool:zero", "pool over memory holds no block");
                if ((uint64_t)max * mempool_block_size(a) > msz) vh_viol("pool:mem-claims", "claims %u blocks of %u in %zu bytes", max, mempool_block_size(a), msz); }
            if (r == 0 && tiny) vh_viol("pool:huge-ok", "block of %u bytes accepted in %zu bytes of memory", w, msz);
            if (r > 0) vh_viol("pool:positive", "returned %d", r);
            if (r < 0 && msz > bs + sizeof(mempool) + 96) vh_viol("pool:mem-refused", "refused %zu bytes of memory for blocks of %u (%d)", msz, w, r);
            if (r) { free(raw); vh_count("evals", 1); if (vh_nviol) break; continue; }
        } else {
            a = (void *)1; mempool *a0 = a;
            if (how & 1) r = mempool_new(&a, deftr ? 0 : &tr, want, max, mu); else { memset(&mp, 0x5a, sizeof mp); r = mempool_init(&mp, deftr ? 0 : &tr, want, max, mu); if (!r) a = &mp; }
            if (r) {
                if (!L.failat && !tiny) vh_viol("pool:create", "creating returned %d", r);
                if (r > 0) vh_viol("pool:positive", "returned %d", r);
                if (L.live) vh_viol("pool:create-leak", "failed creation left %d allocations", L.live);
                if (a != a0) vh_viol("pool:create-ptr", "failed creation stored a pool");
                vh_count("create_failed", 1); vh_count("evals", 1); if (vh_nviol) break; continue;
            }
        }
        size_t bs = mempool_block_size(a); if (bs < want) vh_viol("pool:block-size", "block size %zu, wanted %u", bs, want);
        if (mempool_total_blocks(a) != max) vh_viol("pool:total", "total %u, limit %u", mempool_total_blocks(a), max);
        if (tiny) { /* enormous blocks: only the bookkeeping is exercised */ if (how & 1) mempool_delete(a); else mempool_fini(a); if (L.live) vh_viol("pool:leak", "%d allocations left", L.live); vh_count("evals", 1); if (vh_nviol) break; continue; }
        nb = 0; nfreed = 0; uint64_t sig = vh_h(bs * 1000 + max, mu), ops = 20 + vrsz(vh_thorough ? 20000 : 3000); int pa = 55, grew = 0, fullseen = 0; memmgr mg; memmgr *via = vrp(25) ? mempool_make_memmgr(&mg, a) : 0;
        if (bs > 1000 && ops > 800) ops = 800;
        for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
            if (o % 97 == 0) pa = vrp(33) ? 85 : vrp(50) ? 30 : 55;
            if (vrp(pa) && nb < 20000) {
                int c0 = L.calls; void *p = via ? memmgr_alloc(via, bs) : mempool_alloc(a); int failed = L.failat && L.calls >= L.failat;
                if (!p) {
                    if (max ? nb < (int)max : (!failed && !deftr && L.live < 4096)) { vh_viol("pool:no-block", "no block with %d live, limit %u", nb, max); break; }
                    fullseen = 1; vh_count(max ? "at_limit" : "alloc_failures", 1); continue;
                }
                if (max && nb >= (int)max) { vh_viol("pool:over-limit", "%d live blocks, limit %u", nb + 1, max); break; }
                if ((uintptr_t)p % 8) { vh_viol("pool:misaligned", "block at %p", p); break; }
                if (mem && ((unsigned char *)p < mem || (unsigned char *)p + bs > mem + msz)) { vh_viol("pool:outside", "block outside the caller's memory"); break; }
                if (how < 4 && !deftr) { int in = 0; for (int i = 0; i < L.live; i++) if ((unsigned char *)p >= (unsigned char *)L.p[i] && (unsigned char *)p + bs <= (unsigned char *)L.p[i] + L.sz[i]) in = 1; if (!in) { vh_viol("pool:outside", "block outside the memory taken from the allocator"); break; } }
                B[nb].p = p; B[nb].pat = vr(); paint(&B[nb], bs); nb++; if (L.calls > c0) grew++; sig = vh_h(sig, o * 2);
            } else if (nb) {
                int i = vrp(30) ? nb - 1 : vrp(30) ? 0 : (int)vrn((uint64_t)nb);
                if (!intact(&B[i], bs)) { vh_viol("pool:disturbed", "content of a live block changed"); break; }
                if (via) memmgr_free(via, B[i].p); else mempool_free(a, B[i].p);
                B[i] = B[--nb]; sig = vh_h(sig, o * 2 + 1);
            }
            if (o % 512 == 511 || o + 1 == ops) {
                qsort(B, (size_t)nb, sizeof *B, cmpb);
                for (int i = 0; i < nb; i++) { if (!intact(&B[i], bs)) { vh_viol("pool:disturbed", "content of a live block changed"); break; } if (i && B[i - 1].p + bs > B[i].p) { vh_viol("pool:overlap", "live blocks overlap"); break; } }
            }
        }
        /* reuse: after returning everything a bounded pool gives its full limit again, an unbounded one takes nothing new for as many blocks as before */
        if (!vh_nviol && vrp(50)) {
            int n = nb, c0 = L.calls; while (nb) { if (!intact(&B[--nb], bs)) { vh_viol("pool:disturbed", "content changed"); break; } mempool_free(a, B[nb].p); }
            int lim = max ? (int)max : n; for (int i = 0; i < lim && !vh_nviol; i++) { void *p = mempool_alloc(a); if (!p) { vh_viol("pool:not-reusable", "only %d of %d blocks available again", i, lim); break; } B[nb].p = p; B[nb].pat = vr(); paint(&B[nb], bs); nb++; }
            if (!vh_nviol && max && mempool_alloc(a)) vh_viol("pool:over-limit", "block beyond the limit of %u", max);
            if (L.calls != c0) vh_viol("pool:no-reuse", "returned blocks were not reused");
            qsort(B, (size_t)nb, sizeof *B, cmpb); for (int i = 0; i < nb && !vh_nviol; i++) if ((i && B[i - 1].p + bs > B[i].p) || !intact(&B[i], bs)) vh_viol("pool:overlap", "reused blocks overlap");
            vh_count("refills", 1);
        }
        if (mem) { if (vrp(50)) mempool_fini(a); else if (a != &mp) mempool_delete(a); else mempool_fini(a); free(raw); }
        else if (how & 1) mempool_delete(a); else mempool_fini(a);
        if (L.live) vh_viol("pool:leak", "%d allocations left after deletion", L.live);
        vh_count("ops", ops); vh_count("evals", 1); vh_count("grown", (uint64_t)grew); vh_count("full_seen", (uint64_t)fullseen); vh_sig(sig);
        if (c < 4) vh_sample("block=%zu max=%u units=%u how=%d ops=%llu grew=%d", bs, max, mu, how, (unsigned long long)ops, grew);
        if (vh_nviol) break;
    }
    return vh_end();
}

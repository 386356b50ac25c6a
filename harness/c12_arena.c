/* C12: arenas and memory managers against a ledger of blocks and of malloc */
#include "vh.h"
#include "utils/arena.h"
#include "utils/utils.h"
static int armed, failat, calls, live;
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
static int cut(size_t n) { if (!armed) return 0; calls++; return (failat && calls >= failat) || n > (1u << 26); }
void *__wrap_malloc(size_t n) { if (cut(n)) { errno = ENOMEM; return 0; } void *p = __real_malloc(n); if (armed && p) { live++; memset(p, 0xe7, n); } return p; }
void *__wrap_calloc(size_t a, size_t n) { if (cut(a * n)) { errno = ENOMEM; return 0; } void *p = __real_calloc(a, n); if (armed && p) live++; return p; }
void __wrap_free(void *p) { if (armed && p) live--; __real_free(p); }
typedef struct { unsigned char *p; size_t n; uint64_t pat; } blk;
static blk B[6000]; static int nb;
static void paint(blk *b) { for (size_t i = 0; i < b->n; i++) b->p[i] = (unsigned char)vh_mix(b->pat + i / 8); }
static int intact(blk *b) { for (size_t i = 0; i < b->n; i++) if (b->p[i] != (unsigned char)vh_mix(b->pat + i / 8)) return 0; return 1; }
static int cmpb(const void *a, const void *b) { const blk *x = a, *y = b; return x->p < y->p ? -1 : x->p > y->p; }
static void *fx_alloc(void *x, size_t n) { (*(int *)x)++; (void)n; return x; }
static void fx_free(void *x, void *p) { (*(int *)x) += 100; if (p != x) vh_viol("memmgr:arg", "freed another pointer"); }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t chunk = vrp(20) ? 0 : vrp(60) ? vrsz(300) : vrp(95) ? vrsz(200000) : (size_t)0 - vrn(200); int via = vrp(30); memmgr m, *mm = 0; arena_t a = (arena_t)8;
        failat = vrp(25) ? 1 + (int)vrn(8) : 0; calls = 0; live = 0; nb = 0; armed = 1;
        vh_case("chunk=%zu via=%d failat=%d ", chunk, via, failat);
        int r = arena_new(&a, chunk);
        if (failat == 1 ? r >= 0 : r != 0) vh_viol("arena:new", "arena_new returned %d (fault %d)", r, failat);
        if (r) { if (live) vh_viol("arena:leak", "leak on failed creation"); if (a) vh_viol("arena:new-ptr", "failed creation stored a pointer"); armed = 0; vh_count("evals", 1); if (vh_nviol) break; continue; }
        if (via) { mm = arena_memmgr(&m, a); if (!mm || !memmgr_valid_p(mm)) vh_viol("arena:memmgr", "no manager"); }
        size_t eff = chunk ? chunk : 128 * 1024; uint64_t ops = 5 + vrsz(400), tot = 0, sig = vh_h(chunk, (uint64_t)via);
        for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
            size_t n; switch (vrn(12)) { case 0: n = 0; break; case 1: n = eff - vrn(20); break; case 2: n = eff + vrn(40); break; case 3: n = (size_t)0 - vrn(100); break;
                case 4: n = SIZE_MAX / 16 - 20 + vrn(60); break; case 5: n = SIZE_MAX / 16 * (1 + vrn(15)) + vrn(1000); break; case 6: n = (size_t)(((unsigned __int128)(1 + vrn(16)) << 64) / 16) + vrn(200); break; case 7: n = (1ull << (60 + vrn(4))) + vrn(50); break;
                case 8: n = vrsz(3 * (eff > 100000 ? 100000 : eff)); break; default: n = vrsz(300); }
            int big = n > (1u << 26); if (!big && (n > 2000000 || tot > 30000000)) n = vrn(64);
            int c0 = calls; void *p; char *s = 0; int sd = !big && n > 0 && n < 2000 && !via && vrp(20);
            if (sd) { s = __real_malloc(n); for (size_t i = 0; i + 1 < n; i++) s[i] = (char)(1 + vrn(255)); s[n - 1] = 0; p = arena_strdup(a, s); if (p && memcmp(p, s, n)) vh_viol("arena:strdup", "copy differs"); __real_free(s); }
            else p = via ? memmgr_alloc(mm, n) : arena_alloc(a, n);
            int faulted = failat && calls >= failat && calls > c0; int bigchunk = chunk > (1u << 26); sig = vh_h(sig, n);
            if (big) { if (p) vh_viol("arena:short-block", "request for %zu bytes yielded a block", n); vh_count("refused_huge", 1); continue; }
            if (!p) { if (!faulted && !bigchunk && n * 17 < (1u << 26)) vh_viol("arena:null", "request for %zu bytes failed", n); vh_count("failed", 1); if (bigchunk && o > 20) break; continue; }
            if ((uintptr_t)p % 8) vh_viol("arena:misaligned", "block at %p", p);
            if (nb < 6000) { B[nb].p = p; B[nb].n = n; B[nb].pat = vr(); paint(&B[nb]); nb++; tot += n; }
            if (via && vrp(20)) memmgr_free(mm, p);       /* releasing single blocks does nothing */
            vh_count("blocks", 1);
        }
        qsort(B, (size_t)nb, sizeof *B, cmpb);
        unsigned char *end = 0; for (int i = 0; i < nb; i++) { if (!B[i].n) continue; if (!intact(&B[i])) { vh_viol("arena:disturbed", "content of a block of %zu bytes changed", B[i].n); break; } if (B[i].p < end) { vh_viol("arena:overlap", "blocks overlap"); break; } end = B[i].p + B[i].n; }
        arena_delete(a); if (live) vh_viol("arena:leak", "%d system blocks not returned", live);
        /* plain managers */
        { memmgr d; memset(&d, 0, sizeof d); failat = 0; live = 0; memmgr *q = vrp(50) ? malloc_memmgr(&d) : xmalloc_memmgr(&d); void *p[8]; size_t n[8]; for (int i = 0; i < 8; i++) { n[i] = 1 + vrsz(3000); p[i] = memmgr_alloc(q, n[i]); if (!p[i]) { vh_viol("memmgr:null", "no memory"); break; } memset(p[i], i + 1, n[i]); }
          if (live != 8) vh_viol("memmgr:alloc", "%d system blocks for 8 requests", live); for (int i = 0; i < 8 && !vh_nviol; i++) { for (size_t k = 0; k < n[i]; k++) if (((unsigned char *)p[i])[k] != i + 1) { vh_viol("memmgr:disturbed", "content changed"); break; } memmgr_free(q, p[i]); } memmgr_free(q, 0); if (live && !vh_nviol) vh_viol("memmgr:leak", "not returned");
          int ctx = 0; q = memmgr_init(&d, fx_alloc, vrp(50) ? fx_free : 0, &ctx); void *z = memmgr_alloc(q, 5); if (z != &ctx || ctx != 1) vh_viol("memmgr:ctx", "allocator not called with its context"); memmgr_free(q, z); if (q->free == fx_free && ctx != 101) vh_viol("memmgr:ctx", "free not called with its context"); if (memmgr_init(0, fx_alloc, 0, 0)) vh_viol("memmgr:null-arg", "non-null"); }
        armed = 0; vh_count("evals", 1); vh_sig(sig); if (c < 4) vh_sample("chunk=%zu requests=%llu blocks=%d", chunk, (unsigned long long)ops, nb);
        if (vh_nviol) break;
    }
    return vh_end();
}

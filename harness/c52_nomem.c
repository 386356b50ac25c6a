/* C52: running out of memory is reported (or stops the program at a check) without corruption, leak or loss.
 * Every scenario runs in a child; the allocator fails at chosen calls; the child verifies results against a model. */
#include "vh.h"
#include "utils/hashtab.h"
#include "utils/fast-ht.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include "utils/mempool.h"
#include "utils/arena.h"
#include "utils/memmgr.h"
#include "utils/gstring.h"
#include "utils/strutils.h"
#include "utils/pack.h"
#include "utils/readpass.h"
#include "fast/vect.h"
#include "fast/queue.h"
#include "fast/buf.h"
#include "fast/spsc_bounded_queue.h"
#include "fast/mpmc_bounded_queue.h"
#include "posix/job.h"
#include "posix/work.h"
#include <pthread.h>
#include <signal.h>

static volatile int armed; static int failat, failn, calls, live, faults;
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t);
static int cut(void) { if (!armed) return 0; int k = __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED); if (failat && k >= failat && k < failat + failn) { __atomic_add_fetch(&faults, 1, __ATOMIC_RELAXED); return 1; } return 0; }
static void up(void *p) { if (armed && p) __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); }
void *__wrap_malloc(size_t n) { if (cut()) { errno = ENOMEM; return 0; } void *p = __real_malloc(n); if (armed && p) memset(p, 0xe7, n); up(p); return p; }
void *__wrap_calloc(size_t a, size_t n) { if (cut()) { errno = ENOMEM; return 0; } void *p = __real_calloc(a, n); up(p); return p; }
void *__wrap_realloc(void *o, size_t n) { if (cut()) { errno = ENOMEM; return 0; } void *p = __real_realloc(o, n); if (!o) up(p); return p; }
int __wrap_posix_memalign(void **pp, size_t a, size_t n) { if (cut()) return ENOMEM; int r = __real_posix_memalign(pp, a, n); if (!r) { if (armed) memset(*pp, 0xe7, n); up(*pp); } return r; }
char *__wrap_strdup(const char *s) { if (cut()) { errno = ENOMEM; return 0; } size_t n = strlen(s) + 1; char *p = __real_malloc(n); if (p) memcpy(p, s, n); up(p); return p; }
void __wrap_free(void *p) { if (armed && p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __real_free(p); }

static int *sh;                        /* shared: [0] calls [1] faults [2] reported errors */
#define REPORTED() (sh[2]++)
#define L(x) ({ armed = 1; __auto_type _l = (x); armed = 0; _l; })
#define LV(x) do { armed = 1; x; armed = 0; } while (0)
#define FAULTED(f0) (faults > (f0))
#define BAD(key, ...) vh_viol("nomem:" key, __VA_ARGS__)
static void leakcheck(const char *w) { if (live) BAD("leak", "%s: %d blocks not released", w, live); }

/* ---- hash table */
typedef struct { uint32_t k, gen; } item;
static uint32_t hh(const void *p) { uint32_t k = ((const item *)p)->k; return k * 2654435761u; }
static int hc(const void *a, const void *b) { uint32_t x = ((const item *)a)->k, y = ((const item *)b)->k; return x < y ? -1 : x > y; }
static void s_hashtab(void)
{
    hash_table_policy p; memset(&p, 0, sizeof p); p.hash = hh; p.cmp = hc; p.logsize = 1 + vrn(4); p.fillmax = vrp(50) ? 1 + vrn(99) : 0; malloc_memmgr(&p.mem);
    if (vrp(40)) p.lock = Mutex_locker;
    hash_table_t t = 0; int f0 = faults, r = L(hash_table_new(&t, &p));
    if (r) { if (!FAULTED(f0)) BAD("hashtab-new", "creation failed (%d) without a fault", r); if (r != -ENOMEM) BAD("hashtab-new", "creation returned %d", r); REPORTED(); leakcheck("hash_table_new");
        if (live) return; r = L(hash_table_new(&t, &p)); if (r) { if (!FAULTED(f0)) BAD("hashtab-new", "retry failed"); return; } }
    static item it[64][4]; item *in[64]; memset(in, 0, sizeof in); int nops = 20 + (int)vrn(120), n = 0;
    for (int o = 0; o < nops && !vh_nviol; o++) {
        uint32_t k = (uint32_t)vrn(64); item *x = &it[k][vrn(4)]; x->k = k; f0 = faults;
        switch (vrn(6)) {
        case 0: case 1: r = L(hash_table_insert(t, x)); if (in[k] ? r != -EEXIST : r ? r != -ENOMEM || !FAULTED(f0) : 0) BAD("hashtab-insert", "insert returned %d (present %d, fault %d)", r, !!in[k], FAULTED(f0)); if (r == -ENOMEM) REPORTED(); if (!r) { in[k] = x; n++; } break;
        case 2: r = L(hash_table_replace(t, x)); if (r && (r != -ENOMEM || in[k] || !FAULTED(f0))) BAD("hashtab-replace", "replace returned %d", r); if (r) REPORTED(); else { n += !in[k]; in[k] = x; } break;
        case 3: { void *q = L(hash_table_probe(t, x)); if (in[k] ? q != in[k] : q ? q != x : !FAULTED(f0)) BAD("hashtab-probe", "probe returned %p", q); if (!q) REPORTED(); else if (!in[k]) { in[k] = x; n++; } break; }
        case 4: { void *q = 0; r = L(hash_table_remove(t, x, &q)); if ((in[k] ? r != 0 : r != -ENOENT) || (!r && q != in[k])) BAD("hashtab-remove", "remove returned %d", r); n -= !!in[k]; in[k] = 0; break; }
        default: { hash_table_iter_t i = 0; int kind = (int)vrn(3), l0 = live; r = kind == 2 ? L(hash_table_bucket_iter_new(&i, t, x)) : L(hash_table_iter_new(&i, t, kind));
            if (r) { if (r != -ENOMEM || !FAULTED(f0)) BAD("hashtab-iter", "iterator creation returned %d", r); if (live != l0) BAD("leak", "failed iterator leaks %d blocks", live - l0); REPORTED(); break; }
            int seen = 0; if (kind < 2) { for (r = hash_table_iter_first(i); r == 0; r = hash_table_iter_next(i)) { item *q = hash_table_iter_item(i); if (!q || in[q->k] != q) { BAD("hashtab-iter", "iterator shows a foreign item"); break; } seen++; }
                if (!vh_nviol && seen != n) BAD("hashtab-iter", "iterator shows %d of %d items", seen, n); }
            LV(hash_table_iter_delete(i)); }
        }
    }
    failat = 0;
    for (uint32_t k = 0; k < 64 && !vh_nviol; k++) { item key = { k, 0 }; void *q = 0; r = hash_table_lookup(t, &key, &q); if (!!r != !!in[k] || (r && q != in[k])) BAD("hashtab-lost", "key %u: found %d, expected %d", k, r, !!in[k]); }
    LV(hash_table_delete(t)); leakcheck("hash table");
}
/* ---- memory pools */
static void s_mempool(void)
{
    memmgr m; struct mempool *p = 0; unsigned bs = 1 + (unsigned)vrn(100), mx = vrp(50) ? 0 : 1 + (unsigned)vrn(60), un = vrp(50) ? 0 : 1 + (unsigned)vrn(9); int f0 = faults; malloc_memmgr(&m);
    int r = L(mempool_new(&p, vrp(50) ? &m : 0, bs, mx, un));
    if (r) { if (r != -ENOMEM || !FAULTED(f0)) BAD("mempool-new", "returned %d", r); REPORTED(); leakcheck("mempool_new"); return; }
    static void *b[300]; int n = 0; unsigned real = mempool_block_size(p);
    for (int o = 0; o < 200 && !vh_nviol; o++) {
        if (n && vrp(30)) { int i = (int)vrn((uint64_t)n); LV(mempool_free(p, b[i])); b[i] = b[--n]; continue; }
        f0 = faults; void *q = L(mempool_alloc(p)); if (!q) { if (!FAULTED(f0) && (!mx || n < (int)mx)) BAD("mempool-alloc", "failed with %d blocks out", n); REPORTED(); continue; }
        for (int i = 0; i < n; i++) if (b[i] == q) { BAD("mempool-alloc", "block handed out twice"); break; }
        memset(q, n, real); b[n++] = q;
    }
    LV(mempool_delete(p)); leakcheck("mempool");
}
/* ---- arenas, unfailing manager */
static void s_arena(void)
{
    arena_t a = 0; int f0 = faults, r = L(arena_new(&a, 1 + vrn(3000)));
    if (r) { if (r != -ENOMEM || !FAULTED(f0)) BAD("arena-new", "returned %d", r); REPORTED(); leakcheck("arena_new"); return; }
    for (int o = 0; o < 40; o++) { f0 = faults; size_t n = 1 + vrsz(4000); unsigned char *p = L(arena_alloc(a, n)); if (!p) { if (!FAULTED(f0)) BAD("arena-alloc", "failed"); REPORTED(); continue; } memset(p, o, n); }
    LV(arena_delete(a)); leakcheck("arena");
}
static void s_xmalloc(void)
{
    memmgr m; xmalloc_memmgr(&m); void *b[20];
    for (int o = 0; o < 20; o++) { b[o] = L(memmgr_alloc(&m, 1 + vrn(100))); if (!b[o]) { BAD("xmalloc", "the unfailable manager returned no memory"); return; } }
    for (int o = 0; o < 20; o++) LV(memmgr_free(&m, b[o]));
    leakcheck("xmalloc manager");
}
/* ---- strings */
static void s_strsplit(void)
{
    char s[400], o[400]; size_t n = vrn(399); for (size_t i = 0; i < n; i++) s[i] = vrp(40) ? vpick(",;") : (char)vpick("ab c"); s[n] = 0; strcpy(o, s);
    int want = 0, k = -1, f0 = faults; for (size_t i = 0, st = 0; i <= n; i++) if (!s[i] ? i > st : s[i] == ',' || s[i] == ';') { want++; st = i + 1; }
    char **v = L(strsplit(&k, s, ",;", 0));
    if (!v) { if (!FAULTED(f0)) BAD("strsplit", "failed without a fault"); REPORTED(); leakcheck("strsplit"); return; }
    if (k != want) BAD("strsplit", "%d parts of %d", k, want); else for (int i = 0, st = 0; i < k; i++) { int e = st; while (o[e] && o[e] != ',' && o[e] != ';') e++; if (v[i] != s + st || strncmp(v[i], o + st, (size_t)(e - st)) || v[i][e - st]) { BAD("strsplit", "part %d wrong", i); break; } st = e + 1; }
    LV(free(v)); leakcheck("strsplit");
}
static char ref[8192]; static size_t rl;
static const char *look(void *c, const char *k) { (void)c; return !strcmp(k, "x") ? "value-of-x" : !strcmp(k, "yy") ? "" : 0; }
static void s_gstr(void)
{
    gstr g, h; rl = 0; size_t cap = vrsz(100); L(gstr_init(&g, cap)); L(gstr_init_from(&h, "some text; with delimiters")); ref[0] = 0;
    for (int o = 0; o < 40 && !vh_nviol && rl < 4000; o++) {
        char t[200]; size_t n = vrsz(150); for (size_t i = 0; i < n; i++) t[i] = (char)vpick("abc; "); t[n] = 0;
        switch (vrn(4)) {
        case 0: LV(gstr_append_str(&g, t)); memcpy(ref + rl, t, n + 1); rl += n; break;
        case 1: LV(gstr_append_ch(&g, 'z')); ref[rl++] = 'z'; ref[rl] = 0; break;
        case 2: LV(gstr_append(&g, &h)); memcpy(ref + rl, h.str, h.len + 1); rl += h.len; break;
        default: { gstr d; LV(gstr_dup(&d, &g)); if (d.len != rl || strcmp(d.str, ref)) BAD("gstr-dup", "wrong copy"); if (vrp(50)) { LV(gstr_copy(&h, &d)); if (strcmp(h.str, ref)) BAD("gstr-copy", "wrong copy"); if (h.len > 300) { LV(gstr_truncate(&h, 20)); } } LV(gstr_fini(&d)); }
        }
        if (g.len != rl || strlen(g.str) != rl || strcmp(g.str, ref)) BAD("gstr", "content differs: %s", vh_str(g.str, g.len > 60 ? 60 : g.len));
    }
    if (vrp(50) && !vh_nviol) { LV(gstr_escape(&g, ";", '\\')); LV(gstr_unescape(&g, '\\')); if (strcmp(g.str, ref)) BAD("gstr-escape", "round trip differs"); }
    LV(gstr_fini(&h)); LV(gstr_fini(&g)); leakcheck("gstring");
}
static void s_varexp(void)
{
    gstr g; ref[0] = 0; char t[2000]; t[0] = 0; int n = (int)vrn(80); for (int i = 0; i < n; i++) switch (vrn(3)) { case 0: strcat(t, "${x}"); strcat(ref, "value-of-x"); break; case 1: strcat(t, "${yy}"); break; default: strcat(t, "text."); strcat(ref, "text."); }
    L(gstr_init_from(&g, t)); int f0 = faults, r = L(gstr_varexp(&g, look, 0)); if (r && !FAULTED(f0)) BAD("varexp", "returned %d", r); if (r) REPORTED(); else if (strcmp(g.str, ref)) BAD("varexp", "wrong text"); LV(gstr_fini(&g)); leakcheck("gstr_varexp");
}
static void s_readline(void)
{
    size_t n = 1 + vrsz(1500); char *t = __real_malloc(n); for (size_t i = 0; i < n; i++) t[i] = vrp(3) ? '\n' : (char)vpick("abcd"); FILE *fp = fmemopen(t, n, "r"); gstr g; L(gstr_init(&g, 1 + vrn(20))); size_t at = 0;
    while (at < n && !vh_nviol) { int f0 = faults, r = L(gstr_readline(&g, fp, "\n")); size_t e = at; while (e < n && t[e] != '\n') e++;
        if (r == -ENOMEM) { if (!FAULTED(f0)) BAD("readline", "no memory without a fault"); if (strlen(g.str) >= g.cap || g.len != strlen(g.str)) BAD("readline", "string of length %zu holds %zu characters after failure", g.len, strlen(g.str)); if (memcmp(g.str, t + at, g.len)) BAD("readline", "string holds what was not in the line"); REPORTED(); break; }
        if (r != (int)(e - at) || memcmp(g.str, t + at, e - at) || g.str[r]) { BAD("readline", "line of %zu bytes read as %d", e - at, r); break; } at = e + 1; }
    fclose(fp); __real_free(t); LV(gstr_fini(&g)); leakcheck("gstr_readline");
}
/* ---- unpacking with allocation */
static void s_unpack(void)
{
    uint8_t b[4000]; uint32_t n[3], m[3] = { 0, 0, 0 }; uint32_t *v = 0; uint8_t *w = 0; char *s = 0; uint64_t *q = 0; uint32_t va[60]; uint8_t wa[60]; uint64_t qa[60]; char sa[100]; size_t sl = vrn(99);
    for (int i = 0; i < 3; i++) n[i] = 1 + (uint32_t)vrn(59); for (int i = 0; i < 60; i++) { va[i] = (uint32_t)vr(); wa[i] = (uint8_t)vr(); qa[i] = vr(); } memset(sa, 's', sl); sa[sl] = 0;
    ssize_t k = L(Pack(b, sizeof b, "> * I * B Z * L", n[0], va, n[1], wa, sa, n[2], qa)); if (k <= 0) { if (!faults) BAD("pack", "Pack returned %zd", k); return; }
    uint8_t *x = __real_malloc((size_t)k); memcpy(x, b, (size_t)k); int f0 = faults;
    ssize_t r = L(Unpack(x, (size_t)k, "> * I * B Z * L", &m[0], &v, &m[1], &w, &s, &m[2], &q));
    if (r < 0) { if (r != -ENOMEM || !FAULTED(f0)) BAD("unpack", "Unpack returned %zd", r); REPORTED(); }
    else if (r != k || memcmp(v, va, n[0] * 4) || memcmp(w, wa, n[1]) || strcmp(s, sa) || memcmp(q, qa, n[2] * 8) || m[0] != n[0] || m[1] != n[1] || m[2] != n[2]) BAD("unpack", "values differ");
    if (v) LV(free(v)); if (w) LV(free(w)); if (s) LV(free(s)); if (q) LV(free(q)); __real_free(x); leakcheck("Unpack");
}
/* ---- filters */
static void s_xor(void)
{
    size_t n = 1 + vrsz(400); uint64_t *k = __real_malloc(n * 8); for (size_t i = 0; i < n; i++) k[i] = vr(); int f0 = faults, wide = vrp(50); Xorfilter *x = wide ? L(Xorfilter_new16(k, n)) : L(Xorfilter_new8(k, n));
    if (!x) { if (!FAULTED(f0)) BAD("xorfilter", "creation failed"); REPORTED(); leakcheck("Xorfilter_new"); __real_free(k); return; }
    for (size_t i = 0; i < n; i++) if (!Xorfilter_contains(x, k[i])) { BAD("xorfilter", "key missing"); break; }
    char fn[300]; snprintf(fn, sizeof fn, "%s/x%d", vh_tmp, (int)getpid()); int r = L(Xorfilter_marshal(x, fn)); f0 = faults; if (r >= 0) { Xorfilter *y = 0; int l0 = live; r = L(Xorfilter_unmarshal(&y, fn, vrp(50) ? XORFILTER_MMAP : 0));
        if (r < 0) { if (!FAULTED(f0)) BAD("xor-unmarshal", "returned %d", r); if (live != l0) BAD("leak", "failed Xorfilter_unmarshal leaks"); REPORTED(); } else { for (size_t i = 0; i < n; i++) if (!Xorfilter_contains(y, k[i])) { BAD("xor-unmarshal", "key missing"); break; } LV(Xorfilter_delete(y)); } }
    unlink(fn); LV(Xorfilter_delete(x)); __real_free(k); leakcheck("Xorfilter");
}
static void s_bloom(void)
{
    int kind = (int)vrn(3), f0 = faults; uint64_t n = 1 + vrn(60), tot = kind == 1 ? n * 20 : n; Bloom *b = kind == 2 ? L(Counting_bloom_new(n, 0.01)) : L(Standard_bloom_new(n, 0.01, kind));
    if (!b) { if (!FAULTED(f0)) BAD("bloom", "creation failed"); REPORTED(); leakcheck("Bloom_new"); return; }
    uint64_t s0 = vr(); for (uint64_t i = 0; i < tot; i++) LV(Bloom_probe(b, vh_mix(s0 + i))); for (uint64_t i = 0; i < tot; i++) if (!Bloom_find(b, vh_mix(s0 + i))) { BAD("bloom", "key missing"); break; }
    char fn[300]; snprintf(fn, sizeof fn, "%s/b%d", vh_tmp, (int)getpid()); int r = L(Bloom_marshal(b, fn)); f0 = faults; if (r >= 0) { Bloom *y = 0; int l0 = live; r = L(Bloom_unmarshal(&y, fn, vrp(50) ? BLOOM_BITMAP_MMAP : 0));
        if (r < 0) { if (!FAULTED(f0)) BAD("bloom-unmarshal", "returned %d", r); if (live != l0) BAD("leak", "failed Bloom_unmarshal leaks %d blocks", live - l0); REPORTED(); } else { for (uint64_t i = 0; i < tot; i++) if (!Bloom_find(y, vh_mix(s0 + i))) { BAD("bloom-unmarshal", "key missing"); break; } LV(Bloom_delete(y)); } }
    unlink(fn); LV(Bloom_delete(b)); leakcheck("Bloom");
}
static void s_ht(void)
{
    ht *h = L(ht_new((uint32_t)vrn(8), vrp(50) ? 0 : 1 + (uint32_t)vrn(95))); if (!h) { if (!faults) BAD("ht", "creation failed"); REPORTED(); leakcheck("ht_new"); return; } uint64_t s0 = vr(); int n = 1 + (int)vrn(300);
    for (int i = 0; i < n; i++) { void *p = L(ht_probe(h, vh_mix(s0 + (uint64_t)i) | 1, (void *)(intptr_t)(i + 1))); if (p) BAD("ht", "new key reported present"); }
    for (int i = 0; i < n; i++) { void *v = 0; if (!ht_find(h, vh_mix(s0 + (uint64_t)i) | 1, &v) || v != (void *)(intptr_t)(i + 1)) { BAD("ht-lost", "key lost"); break; } }
    LV(ht_del(h)); leakcheck("ht");
}
/* ---- macro containers */
VECT_TYPEDEF(ivec, uint32_t);
FQ_DYN_TYPEDEF(fq, uint32_t);
SPSCQ_DYN_TYPEDEF(sq, uint32_t);
MPMC_QUEUE_TYPE(mq, uint32_t);
static void s_vect(void)
{
    ivec v, w; uint32_t n = 1 + (uint32_t)vrn(500); LV(VECT_INIT(&v, vrn(40))); for (uint32_t i = 0; i < n; i++) { if (vrp(5)) LV(VECT_RESERVE(&v, VECT_LEN(&v) + vrn(50))); LV(VECT_PUSH_BACK(&v, i)); }
    LV(VECT_INIT_FROM(&w, &v)); LV(VECT_APPEND_VECT(&w, &v)); if (VECT_LEN(&w) != 2 * n) BAD("vect", "length %zu", (size_t)VECT_LEN(&w)); for (uint32_t i = 0; i < n; i++) if (VECT_ELEM(&v, i) != i || VECT_ELEM(&w, n + i) != i) { BAD("vect", "element %u", i); break; }
    LV(VECT_FINI(&w)); LV(VECT_FINI(&v)); leakcheck("vector");
}
static void s_queues(void)
{
    uint32_t n = 2 + (uint32_t)vrn(60), x; int ok;
    switch (vrn(3)) {
    case 0: { fq q; LV(FQ_DYN_INIT(&q, n)); for (uint32_t i = 0; i + 1 < n; i++) { ok = FQ_ENQ(&q, i); if (!ok) BAD("queue", "enqueue %u of %u failed", i, n); } for (uint32_t i = 0; i + 1 < n; i++) { ok = FQ_DEQ(&q, x); if (!ok || x != i) { BAD("queue", "dequeue %u", i); break; } } LV(FQ_DYN_FINI(&q)); break; }
    case 1: { sq q; LV(SPSCQ_DYN_INIT(&q, n)); for (uint32_t i = 0; i + 1 < n; i++) { ok = SPSCQ_ENQ(&q, i); if (!ok) BAD("spscq", "enqueue %u of %u failed", i, n); } for (uint32_t i = 0; i + 1 < n; i++) { ok = SPSCQ_DEQ(&q, x); if (!ok || x != i) { BAD("spscq", "dequeue %u", i); break; } } LV(SPSCQ_DYN_FINI(&q)); break; }
    default: { mq *q = L(MPMC_QUEUE_NEW(mq, n)); for (uint32_t i = 0; i < n; i++) { ok = MPMC_QUEUE_ENQ(q, i); if (!ok) BAD("mpmc", "enqueue %u failed", i); } for (uint32_t i = 0; i < n; i++) { ok = MPMC_QUEUE_DEQ(q, x); if (!ok || x != i) { BAD("mpmc", "dequeue %u", i); break; } } LV(MPMC_QUEUE_DEL(q)); }
    }
    leakcheck("queue");
}
static void s_buf(void)
{
    fast_buf b; LV(fast_buf_init(&b, vrn(30))); rl = 0; for (int o = 0; o < 60; o++) { uint8_t t[100]; size_t n = vrsz(90); vrbytes(t, n); if (vrp(30)) { LV(fast_buf_append_byte(&b, 'q')); ref[rl++] = 'q'; } else { LV(fast_buf_append_buf(&b, t, n)); memcpy(ref + rl, t, n); rl += n; } }
    if (b.size != rl || memcmp(b.buf, ref, rl)) BAD("buf", "content differs"); LV(fast_buf_fini(&b)); leakcheck("fast_buf");
}
/* ---- pools */
static int done_jobs; static int jobfn(void *c, void *j, int t) { (void)c; (void)j; (void)t; __atomic_add_fetch(&done_jobs, 1, __ATOMIC_RELAXED); return 0; }
static void s_pools(void)
{
    int f0 = faults, nt = 1 + (int)vrn(3), r; done_jobs = 0;
    if (vrp(50)) { static job_manager m; r = L(job_manager_init(&m, nt, jobfn, 0)); if (r >= 0) { for (long i = 1; i <= 20; i++) job_manager_submit_job(&m, (void *)i); job_manager_wait(&m); LV(job_manager_destroy(&m)); } }
    else { static work_manager m; r = L(work_manager_init(&m, nt, jobfn, 0)); if (r >= 0) { for (long i = 1; i <= 20; i++) work_manager_submit_work(&m, -1, (void *)i); work_manager_wait(&m); LV(work_manager_destroy(&m)); } }
    if (r < 0) { if (r != -ENOMEM || !FAULTED(f0)) BAD("pool", "returned %d", r); REPORTED(); } else if (r != nt || done_jobs != 20) BAD("pool", "%d threads, %d jobs done", r, done_jobs);
    leakcheck("worker pool");
}
/* ---- passwords */
static void s_readpass(void)
{
    int p[2]; if (pipe(p)) return; if (write(p[1], "secret\n", 7) != 7) return; close(p[1]); int fd = dup(0); dup2(p[0], 0); close(p[0]); char *w = (char *)8; int f0 = faults; int r = L(portable_readpass(&w, "p", 0, 0));
    dup2(fd, 0); close(fd); if (r) { if (!FAULTED(f0)) BAD("readpass", "returned %d", r); REPORTED(); } else if (strcmp(w, "secret")) BAD("readpass", "wrong password"); else LV(free(w)); leakcheck("readpass");
}
/* abort: the interface has no error result, stopping at a check is accepted */
static struct { const char *n; void (*f)(void); int abort, exit; } S[] = {
    { "hashtab", s_hashtab, 1, 0 }, { "mempool", s_mempool, 0, 0 }, { "arena", s_arena, 0, 0 }, { "xmalloc", s_xmalloc, 0, 1 }, { "strsplit", s_strsplit, 0, 0 }, { "gstring", s_gstr, 1, 0 }, { "varexp", s_varexp, 1, 0 },
    { "readline", s_readline, 1, 0 }, { "unpack", s_unpack, 0, 0 }, { "xorfilter", s_xor, 1, 0 }, { "bloom", s_bloom, 1, 0 }, { "fast-ht", s_ht, 1, 0 }, { "vect", s_vect, 1, 0 }, { "queues", s_queues, 1, 0 }, { "buf", s_buf, 1, 0 },
    { "pools", s_pools, 0, 0 }, { "readpass", s_readpass, 0, 0 } };
void __sanitizer_set_report_fd(void *) __attribute__((weak));
static int run(int s, uint64_t seed, int at, int n)
{
    char en[320]; snprintf(en, sizeof en, "%s/err", vh_tmp); memset(sh, 0, 64); fflush(0);
    pid_t p = fork();
    if (!p) {
        int fd = open(en, O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void *)2); signal(SIGABRT, SIG_DFL);
        vh_rs = seed; alarm(60); failat = at; failn = n; calls = faults = live = 0; vh_nviol = 0; S[s].f(); sh[0] = calls; sh[1] = faults; fflush(0); _exit(vh_nviol ? 77 : 0);
    }
    int st; while (waitpid(p, &st, 0) < 0) ;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { vh_nviol++; return -1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    char e[3000]; int fd = open(en, O_RDONLY); ssize_t k = fd >= 0 ? read(fd, e, sizeof e - 1) : 0; if (fd >= 0) close(fd); e[k > 0 ? k : 0] = 0;
    if (at && S[s].abort && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && strstr(e, "Assertion") && !strstr(e, "Sanitizer")) return 1;
    if (at && S[s].exit && WIFEXITED(st) && WEXITSTATUS(st) == 1 && strstr(e, "Out of memory") && !strstr(e, "Sanitizer")) return 1;
    char key[64]; snprintf(key, sizeof key, "nomem:crash:%s", S[s].n); vh_viol(key, "scenario ended with status %#x after %d faults: %.900s", st, at ? 1 : 0, e); return -1;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int s = (int)(c % (sizeof S / sizeof *S)); uint64_t seed = vr();
        vh_case("scenario %s, no fault", S[s].n); if (run(s, seed, 0, 0) < 0) break; int total = sh[0]; char nm[40]; snprintf(nm, sizeof nm, "%s", S[s].n); vh_count("evals", 1); vh_count("scenarios", 1); vh_count("allocations", (uint64_t)total);
        for (int k = 0; k < 5 && total && !vh_nviol; k++) {
            int at = 1 + (int)(vrp(30) ? (uint64_t)k % (uint64_t)total : vrp(20) ? (uint64_t)(total - 1) : vrn((uint64_t)total)), n = vrp(60) ? 1 : vrp(50) ? 1 << 20 : 1 + (int)vrn(6);
            vh_case("scenario %s, allocations %d..%d of %d fail", S[s].n, at, at + n - 1, total); int r = run(s, seed, at, n); if (r < 0) break;
            vh_count("evals", 1); vh_count("faulted", 1); vh_sig(vh_h(vh_h(seed, (uint64_t)at), (uint64_t)n)); if (r == 1) vh_count("stopped", 1); else { if (!sh[1]) vh_count("not_reached", 1); vh_count("reported", (uint64_t)sh[2]); vh_count("survived", 1); }
        }
        if (c < 3) vh_sample("%s", vh_casebuf);
        if (vh_nviol) break;
    }
    return vh_end();
}

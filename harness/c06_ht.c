/* C06: fast hash table against a reference map; histories under ASan, heap accounting under churn */
#include "vh.h"
#include "utils/fast-ht.h"
#if defined(VH_ASAN)
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
#endif
static uint64_t ent;                       /* the salt comes from here: runs are reproducible */
int getentropy(void *p, size_t n) { unsigned char *q = p; while (n--) { ent = vh_mix(ent + 0x1234567); *q++ = (unsigned char)(ent >> 33); } return 0; }
#define MAXK 4096
static uint64_t K[MAXK]; static void *V[MAXK]; static char in[MAXK]; static int nk;
static uint64_t seen_k[1 << 16]; static void *seen_v[1 << 16]; static int nseen;
static void dumper(const char *s, size_t n)
{
    unsigned long long k; void *v; (void)n;
    if (sscanf(s, " [0x%llx, %p]", &k, &v) == 2 || (strstr(s, "(nil)") && sscanf(s, " [0x%llx", &k) == 1 && (v = 0, 1))) { if (k && nseen < (1 << 16)) { seen_k[nseen] = k; seen_v[nseen++] = v; } }
}
static void keys(void)
{
    int style = (int)vrn(7); nk = vrp(10) ? 2000 + (int)vrn(2000) : 1 + (int)vrsz(600);
    uint64_t base = vr(); int sh = (int)vrn(57);
    for (int i = 0; i < nk; i++) {
        uint64_t k = 0;
        switch (style) {
        case 0: k = vr(); break;
        case 1: k = (uint64_t)i + 1; break;                        /* sequential */
        case 2: k = (vr() << 8) | (base & 0xff); break;            /* same fingerprint */
        case 3: k = ((uint64_t)(i + 1)) << sh; break;              /* only high bits */
        case 4: k = base ^ ((uint64_t)1 << vrn(64)) ^ ((uint64_t)(i >> 4) << 8); break;
        case 5: k = ~(uint64_t)i; break;                           /* all ones and neighbours */
        case 6: k = (vr() << 8) | (vr() & 1 ? 0 : 1); break;       /* fingerprint 0/1 */
        }
        if (!k) k = ~0ull - (uint64_t)i;
        K[i] = k;
    }
    /* distinct */
    for (int i = 1; i < nk; i++) for (int j = 0; j < i; j++) if (K[i] == K[j]) { K[i] = vr() | 1; i = i > 1 ? i - 1 : 1; break; }
    vh_case_add("keys style %d n=%d;", style, nk);
}
static void *val(void) { return vrp(4) ? 0 : (void *)(uintptr_t)(vr() | 1); }
static void check_all(ht *h, const char *when)
{
    int live = 0;
    for (int i = 0; i < nk; i++) {
        void *v = (void *)0x5a; int r = ht_find(h, K[i], vrp(50) || 1 ? &v : 0);
        if (!!r != in[i]) { vh_viol("ht:presence", "%s: key %llx find=%d, reference %d", when, (unsigned long long)K[i], r, in[i]); return; }
        if (in[i]) { live++; if (v != V[i]) { vh_viol("ht:value", "%s: key %llx has value %p, reference %p", when, (unsigned long long)K[i], v, V[i]); return; } }
    }
    if (h->nodes != (uint64_t)live) vh_viol("ht:count", "%s: table counts %llu entries, reference %d", when, (unsigned long long)h->nodes, live);
    vh_count("lookups", (uint64_t)nk);
}
static int cmpk(const void *a, const void *b) { uint64_t x = seen_k[*(const int *)a], y = seen_k[*(const int *)b]; return x < y ? -1 : x > y; }
static void check_dump(ht *h)
{
    static int ix[1 << 16]; nseen = 0; ht_dump(h, "t", dumper); for (int i = 0; i < nseen; i++) ix[i] = i;
    qsort(ix, (size_t)nseen, sizeof ix[0], cmpk);
    for (int i = 1; i < nseen; i++) if (seen_k[ix[i]] == seen_k[ix[i - 1]]) { vh_viol("ht:dump-twice", "the dump lists key %llx twice", (unsigned long long)seen_k[ix[i]]); return; }
    int live = 0; for (int i = 0; i < nk; i++) live += in[i];
    if (nseen != live) vh_viol("ht:dump-count", "the dump lists %d entries, %d present", nseen, live);
    for (int i = 0; i < nk; i++) if (in[i]) {
        int lo = 0, hi = nseen; while (lo < hi) { int m = (lo + hi) / 2; if (seen_k[ix[m]] < K[i]) lo = m + 1; else hi = m; }
        if (lo >= nseen || seen_k[ix[lo]] != K[i] || seen_v[ix[lo]] != V[i]) { vh_viol("ht:dump-missing", "key %llx is present but not in the dump with its value", (unsigned long long)K[i]); return; }
    }
    vh_count("dumps", 1);
}
static void churn(void)
{
    /* few live entries at any time, very many insert/remove rounds */
    size_t b0 = __sanitizer_get_current_allocated_bytes(); int peak = 1 + (int)vrn(60); uint32_t sz = (uint32_t)(1u << vrn(6)); uint32_t mf = vrp(50) ? 0 : 20 + (uint32_t)vrn(150);
    vh_case("churn peak=%d size=%u maxfill=%u", peak, sz, mf);
    ht *h = ht_new(sz, mf); int n = 20000; uint64_t fifo[64]; int nf = 0; uint64_t step = vr() | 1, k = vr();
    for (int i = 0; i < n; i++) {
        if (nf == peak || (nf && vrp(45))) { int j = (int)vrn((uint64_t)nf); void *v = 0; if (!ht_remove(h, fifo[j], &v) || v != (void *)(uintptr_t)(fifo[j] | 1)) { vh_viol("ht:churn-lost", "key %llx lost", (unsigned long long)fifo[j]); break; } fifo[j] = fifo[--nf]; }
        else { k += step; if (!k) k = 1; if (ht_probe(h, k, (void *)(uintptr_t)(k | 1))) vh_viol("ht:churn-present", "fresh key present"); fifo[nf++] = k; }
    }
    if (h->nodes != (uint64_t)nf) vh_viol("ht:churn-count", "count %llu, reference %d", (unsigned long long)h->nodes, nf);
    size_t b1 = __sanitizer_get_current_allocated_bytes(); 
    size_t bound = 65536 + (size_t)peak * 4096 + (mf && mf < 85 ? (size_t)peak * 4096 * 85 / mf : 0);
    if (b1 > b0 && b1 - b0 > bound) vh_viol("ht:memory", "%zu bytes held after churn with at most %d live entries (%llu buckets, %d rounds)", b1 - b0, peak, (unsigned long long)h->n, n);
    ht_del(h); vh_count("churns", 1); vh_count("evals", 1); vh_sig(vh_h(vh_h(sz, mf), (uint64_t)peak));
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        ent = vr();
        if (c % 60 == 7) { churn(); continue; }
        uint32_t sz = vrp(30) ? 0 : (uint32_t)vrsz(300), mf = vrp(40) ? 0 : (uint32_t)(1 + vrsz(2000));
        if (mf && mf < 8) mf = 8;
        vh_case("size=%u maxfill=%u ", sz, mf); keys(); memset(in, 0, sizeof in);
        ht st, *h; int dyn = vrp(50); h = dyn ? ht_new(sz, mf) : ht_init(&st, sz, mf);
        int steps = nk * 3 + 20, bias = (int)vrr(30, 80); uint64_t sig = sz * 131 + mf;
        for (int s = 0; s < steps && !vh_nviol; s++) {
            int i = (int)vrn((uint64_t)nk), op = (int)vrn(100); void *v = val();
            if (s % 97 == 96) bias = (int)vrr(10, 90);
            if (op < bias) {
                void *r = ht_probe(h, K[i], v);
                if (in[i]) { if (r != V[i]) vh_viol("ht:probe-existing", "probe of present key %llx returned %p, reference %p", (unsigned long long)K[i], r, V[i]); }
                else { if (r) vh_viol("ht:probe-new", "probe of absent key %llx returned %p", (unsigned long long)K[i], r); in[i] = 1; V[i] = v; }
                sig = vh_h(sig, (uint64_t)i);
            } else if (op < bias + (100 - bias) * 6 / 10) {
                void *ov = (void *)0x77; int nul = vrp(10); int r = ht_remove(h, K[i], nul ? 0 : &ov);
                if (!!r != in[i]) vh_viol("ht:remove", "remove of key %llx returned %d, reference %d", (unsigned long long)K[i], r, in[i]);
                if (in[i] && !nul && ov != V[i]) vh_viol("ht:remove-value", "removed value %p, reference %p", ov, V[i]);
                in[i] = 0; sig = vh_h(sig, (uint64_t)i + 5000);
            } else if (op % 3 == 0) {
                int r = ht_replace(h, K[i], v); if (!!r != in[i]) vh_viol("ht:replace", "replace returned %d, reference %d", r, in[i]);
                if (in[i]) V[i] = v;
            } else { void *ov = 0; int r = ht_find(h, K[i], vrp(90) ? &ov : 0); if (!!r != in[i]) vh_viol("ht:find", "find returned %d, reference %d", r, in[i]); }
            if (s % 211 == 210) check_all(h, "mid");
        }
        check_all(h, "end"); if (nk < 1500) check_dump(h);
        vh_count("ops", (uint64_t)steps); vh_count("splits", h->splits); vh_count("evals", 1); vh_sig(sig);
        if (c < 4) vh_sample("size=%u maxfill=%u keys=%d steps=%d splits=%u longest chain=%u bags", sz, mf, nk, steps, h->splits, h->bagmax);
        if (dyn) ht_del(h); else ht_fini(h);
        if (vh_nviol) break;
    }
    return vh_end();
}

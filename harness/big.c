/* sizes far beyond what the histories of the other harnesses reach: counts above 2^16, long texts, deep and wide structures; part chosen by mode= */
#include "vh.h"
#include <alloca.h>
#include <getopt.h>
#include "fast/vect.h"
#include "fast/queue.h"
#include "fast/buf.h"
#include "fast/bitset.h"
#include "fast/syncq.h"
#include "fast/mpmc_bounded_queue.h"
#include "fast/spsc_bounded_queue.h"
#include "utils/gstring.h"
#include "utils/strutils.h"
#include "utils/base64.h"
#include "utils/hexdump.h"
#include "utils/fast-ht.h"
#include "utils/hashtab.h"
#include "utils/mempool.h"
#include "utils/arena.h"
#include "utils/bloom.h"
#include "utils/pack.h"
static uint64_t ent; int getentropy(void *p, size_t n) { unsigned char *q = p; while (n--) { ent = vh_mix(ent + 0x1234567); *q++ = (unsigned char)(ent >> 33); } return 0; }
#define BAD(...) do { vh_viol(__VA_ARGS__); return; } while (0)
static size_t big(void) { return vrp(50) ? 65530 + vrn(12) : 70000 + vrn(90000); }
/* a long text: its length around a power of two or just long */
static size_t tlen(void) { return vrp(60) ? ((size_t)1 << (8 + vrn(10))) - 4 + vrn(8) : 1 + vrn(300000); }

VECT_TYPEDEF(vec, uint32_t);
static int c32(const uint32_t *a, const uint32_t *b) { return *a < *b ? -1 : *a > *b; }
static void vect(void)
{
    vec v, w, s; size_t n = big(), i; uint32_t *p, *m = malloc((n + 80000) * 4); VECT_INIT(&v, vrn(3)); VECT_INIT(&w, 0); VECT_INIT(&s, 0); vh_case("vector of %zu", n);
    for (i = 0; i < n; i++) { uint32_t x = (uint32_t)vr(); m[i] = x; VECT_PUSH_BACK(&v, x); }
    #define SAME(V, what) do { if (VECT_LEN(&V) != n) vh_viol("vect:len", "%s: %zu elements, expected %zu", what, VECT_LEN(&V), n); else for (i = 0; i < n; i++) if (VECT_ELEM(&V, i) != m[i]) { vh_viol("vect:content", "%s: element %zu of %zu", what, i, n); break; } } while (0)
    SAME(v, "push"); VECT_COPY(&w, &v); SAME(w, "copy"); for (int k = 0; k < 3; k++) { uint32_t x = (uint32_t)vr(); memmove(m + 1, m, n * 4); m[0] = x; n++; VECT_PUSH_FRONT(&v, x); } SAME(v, "push front");
    for (int k = 0; k < 3; k++) { uint32_t x = VECT_POP_FRONT(&v); if (x != m[0]) vh_viol("vect:pop-front", "wrong element"); n--; memmove(m, m + 1, n * 4); } SAME(v, "pop front");
    i = 0; VECT_FOR_EACH(&v, p) if (*p != m[i++]) { vh_viol("vect:foreach", "element %zu", i - 1); break; } if (i != n && !vh_nviol) vh_viol("vect:foreach", "%zu of %zu", i, n);
    VECT_RESERVE(&v, 2 * n + 1); if (VECT_CAPACITY(&v) < 2 * n + 1) vh_viol("vect:reserve", "capacity %zu", VECT_CAPACITY(&v)); SAME(v, "reserve"); VECT_ENSURE(&v, 3 * n); if (VECT_CAPACITY(&v) < 4 * n) vh_viol("vect:ensure", "capacity %zu", VECT_CAPACITY(&v)); SAME(v, "ensure");
    size_t k = n / 2 + vrn(n / 3); if (!VECT_SAMPLE(&s, &v, k, vr) || VECT_LEN(&s) != k) vh_viol("vect:sample", "%zu of %zu: %zu", k, n, VECT_LEN(&s)); VECT_SHUFFLE(&v, vr); size_t moved = 0; for (i = 0; i < n; i++) moved += VECT_ELEM(&v, i) != m[i]; if (moved < n * 9 / 10) vh_viol("vect:shuffle", "only %zu of %zu moved", moved, n);
    /* every part of the vector takes part: the tail must receive elements from the head */
    VECT_SORT(&v, c32); qsort(m, n, 4, (int (*)(const void *, const void *))c32); SAME(v, "sort");
    VECT_SORT(&s, c32); for (i = 0, k = 0; k < VECT_LEN(&s) && !vh_nviol; k++) { while (i < n && m[i] < VECT_ELEM(&s, k)) i++; if (i == n || m[i] != VECT_ELEM(&s, k)) vh_viol("vect:sample", "not in the source"); else i++; }
    VECT_APPEND_VECT(&v, &w); if (VECT_LEN(&v) != 2 * n) vh_viol("vect:append", "%zu, expected %zu", VECT_LEN(&v), 2 * n); while (VECT_LEN(&v) > n) { uint32_t x = VECT_POP_BACK(&v); if (x != VECT_ELEM(&w, VECT_LEN(&v) - n)) { vh_viol("vect:pop-back", "wrong element"); break; } } SAME(v, "pop back"); for (i = 0; i < 200 && !vh_nviol; i++) { uint32_t x = VECT_RAND_ELEM(&v, vr); if (!bsearch(&x, m, n, 4, (int (*)(const void *, const void *))c32)) vh_viol("vect:rand", "not an element"); }
    VECT_FINI(&v); VECT_FINI(&w); VECT_FINI(&s); free(m); vh_count("elements", n);
}
static void gstr_(void)
{
    gstr g, h; size_t n = 0, cap = 4u << 20; char *m = malloc(cap); gstr_init(&g, vrn(5)); int steps = 5 + (int)vrn(15); vh_case("string of %d parts", steps);
    for (int k = 0; k < steps && !vh_nviol; k++) {
        size_t l = tlen(); char *t = malloc(l + 1); int nl = vrp(30); for (size_t i = 0; i < l; i++) t[i] = (char)(nl && !(i % 97) ? ' ' : 'a' + (i * 7 + (size_t)k) % 26); t[l] = 0; if (n + 2 * l + 10 > cap) { free(t); break; }
        switch (vrn(4)) { case 0: gstr_append_str(&g, t); memcpy(m + n, t, l); n += l; break; case 1: gstr_init_from(&h, t); gstr_append(&g, &h); gstr_fini(&h); memcpy(m + n, t, l); n += l; break; case 2: for (size_t i = 0; i < l; i++) gstr_append_ch(&g, t[i]); memcpy(m + n, t, l); n += l; break; default: { size_t c = vrp(60) ? vrn(n + 1) : n; gstr_truncate(&g, c); n = c; } }
        if (g.len != n || memcmp(g.str, m, n) || g.str[n] || g.cap <= n) vh_viol("gstr:big", "length %zu capacity %zu, expected %zu", g.len, g.cap, n); free(t);
    }
    gstr_dup(&h, &g); if (h.len != n || memcmp(h.str, m, n) || !gstr_eq(&g, &h)) vh_viol("gstr:big-dup", "copy of %zu", n); if (n) { h.str[n - 1] ^= 1; if (gstr_eq(&g, &h)) vh_viol("gstr:big-eq", "strings of %zu that differ in the last character are equal", n); h.str[n - 1] ^= 1; }
    { size_t s = 0, e = n; while (s < e && m[s] == ' ') s++; while (e > s && m[e - 1] == ' ') e--; gstr_append_str(&h, "   \t\n"); gstr_trim(&h); if (h.len != e - s || memcmp(h.str, m + s, e - s)) vh_viol("gstr:big-trim", "length %zu, expected %zu", h.len, e - s); }
    /* one long line between short ones */
    size_t l = tlen(); char *t = malloc(l + 20); memcpy(t, "ab\n", 3); for (size_t i = 0; i < l; i++) t[3 + i] = (char)('A' + i % 23); memcpy(t + 3 + l, "\nlast\n", 6); FILE *f = fmemopen(t, l + 9, "r"); int r = gstr_readline(&h, f, "\n"); if (r != 2) vh_viol("gstr:big-line", "first line %d", r); r = gstr_readline(&h, f, "\n"); if ((size_t)r != l || h.len != l || memcmp(h.str, t + 3, l)) vh_viol("gstr:big-line", "line of %zu: %d", l, r); r = gstr_readline(&h, f, "\n"); if (r != 4) vh_viol("gstr:big-line", "last line %d", r); fclose(f); free(t);
    gstr_fini(&g); gstr_fini(&h); free(m); vh_count("characters", n + l);
}
static void split(void)
{
    size_t nf = vrp(50) ? big() : 250 + vrn(20), i, n = 0, *at = malloc((nf + 1) * sizeof *at); int lens = vrp(80) ? 3 : 40, csv = vrp(50), sqz = !csv && vrp(50); char *t = malloc(nf * 50 + 400000); size_t huge = vrp(50) ? vrn(nf) : nf;
    for (i = 0; i < nf; i++) { size_t l = i == huge ? tlen() : (size_t)(csv || sqz) + vrn((uint64_t)lens); if (i + 1 == nf && !l) l = 1; at[i] = n; for (size_t q = 0; q < l; q++) t[n++] = (char)('a' + (i + q) % 26); if (i + 1 < nf) t[n++] = ','; } at[nf] = n + 1; t[n] = 0; char *w = vh_dup(t, n + 1); vh_case("%s %zu fields, %zu characters%s", csv ? "csv" : "split", nf, n, sqz ? ", squeezing" : "");
    #define FIELDS(V, N) do { if ((size_t)(N) != nf) vh_viol("split:big", "%d fields, expected %zu", (int)(N), nf); else for (i = 0; i < nf; i++) { size_t l = at[i + 1] - at[i] - 1; if (strlen(V[i]) != l || memcmp(V[i], w + at[i], l)) { vh_viol("split:big-field", "field %zu of %zu", i, nf); break; } } } while (0)
    char **v; int k = 0; if (!csv) { v = strsplit(&k, t, ",", sqz); if (!v) vh_viol("split:big", "no array"); else FIELDS(v, k); free(v); memcpy(t, w, n + 1); }
    v = malloc(nf * sizeof *v); k = csv ? strsplit_csv(v, (int)nf, t, ",") : strsplit_quick(v, (int)nf, t, ",", sqz); FIELDS(v, k); memcpy(t, w, n + 1); k = csv ? strsplit_csv(v, (int)nf - 1, t, ",") : strsplit_quick(v, (int)nf - 1, t, ",", sqz); if (k >= 0) vh_viol("split:big-nospace", "%zu fields in an array of %zu gave %d", nf, nf - 1, k);
    free(v); free(t); free(w); free(at); vh_count("fields", nf);
}
static void args(void)
{
    size_t nf = vrp(50) ? big() : 250 + vrn(20), i, n = 0; char *t = malloc(nf * 16 + 400000); size_t huge = vrp(50) ? vrn(nf) : nf, *l = malloc(nf * sizeof *l);
    for (i = 0; i < nf; i++) { int q = vrp(20); l[i] = i == huge ? tlen() : 1 + vrn(5); if (q) t[n++] = '"'; for (size_t z = 0; z < l[i]; z++) t[n++] = (char)(q && z == 1 ? ' ' : 'a' + (i + z) % 26); if (q) t[n++] = '"'; t[n++] = " \t\n"[vrn(3)]; } t[n] = 0; char *b = vh_dup(t, n + 1), **v = malloc(nf * sizeof *v); vh_case("%zu words, %zu characters", nf, n);
    int k = strsplitargs(v, nf, b); if ((size_t)k != nf) vh_viol("args:big", "%d words, expected %zu", k, nf); else for (i = 0; i < nf; i++) { if (strlen(v[i]) != l[i]) { vh_viol("args:big-word", "word %zu has %zu characters, expected %zu", i, strlen(v[i]), l[i]); break; } for (size_t z = 0; z < l[i]; z++) if (v[i][z] != (char)('a' + (i + z) % 26) && !(z == 1 && v[i][z] == ' ')) { vh_viol("args:big-word", "word %zu", i); break; } }
    memcpy(b, t, n + 1); k = strsplitargs(v, nf - 1, b); if (k != -ENOSPC) vh_viol("args:big-nospace", "%zu words in %zu gave %d", nf, nf - 1, k); free(b); free(v); free(t); free(l); vh_count("words", nf);
}
static void b64(void)
{
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t n = tlen() + (vrp(30) ? 1000000 : 0); unsigned char *s = malloc(n); vrbytes(s, n); vh_case("%zu bytes", n);
    size_t e = (n + 2) / 3 * 4 + n / 54 + 1; char *o = malloc(e + 1), *x = malloc(e + 1); size_t k = 0, q = 0; for (size_t i = 0; i < n; i += 3) { unsigned v = (unsigned)s[i] << 16 | (i + 1 < n ? (unsigned)s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0); x[k++] = A[v >> 18]; x[k++] = A[v >> 12 & 63]; x[k++] = i + 1 < n ? A[v >> 6 & 63] : '='; x[k++] = i + 2 < n ? A[v & 63] : '='; if (i + 2 < n && ++q == 18) x[k++] = '\n', q = 0; } x[k++] = '\n';
    int r = base64_encode_buf(o, (int)k + 1, s, (int)n); if ((size_t)r != k || memcmp(o, x, k) || o[k]) vh_viol("b64:big", "%zu bytes gave %d characters, expected %zu", n, r, k); r = base64_encode_buf(o, (int)k, s, (int)n); if (r >= 0) vh_viol("b64:big-small", "%d", r);
    unsigned char *d = malloc(n); r = base64_decode_buf(d, (int)n, x, (int)k); if ((size_t)r != n || memcmp(d, s, n)) vh_viol("b64:big-dec", "%zu bytes decoded to %d", n, r); r = base64_decode_buf(d, (int)n - 1, x, (int)k); if (r >= 0) vh_viol("b64:big-dec-small", "%d", r);
    base64_encode_state st; base64_encode_init(&st); size_t at = 0, p = 0; while (at < n) { size_t m = vrp(50) ? 1 + vrn(200000) : 1 + vrn(100); if (m > n - at) m = n - at; p += (size_t)base64_encode_block(&st, (char *)s + at, (int)m, o + p); at += m; if (p > e) break; } p += (size_t)base64_encode_finish(&st, o + p); if (p != k || memcmp(o, x, k)) vh_viol("b64:big-chunks", "%zu characters, expected %zu", p, k);
    base64_decode_state ds; base64_decode_init(&ds); at = p = 0; while (at < k) { size_t m = vrp(50) ? 1 + vrn(200000) : 1 + vrn(100); if (m > k - at) m = k - at; p += (size_t)base64_decode_block(&ds, x + at, (int)m, (char *)d + p); at += m; } if (p != n || memcmp(d, s, n)) vh_viol("b64:big-dec-chunks", "%zu bytes, expected %zu", p, n);
    free(s); free(o); free(x); free(d); vh_count("bytes", n);
}
typedef struct { const unsigned char *p; size_t n, at; } hd;
static int hdo(void *c, const char *b, size_t n)
{
    hd *h = c; char l[200]; size_t m = h->n - h->at > 16 ? 16 : h->n - h->at; int k = sprintf(l, "%016zx  ", h->at); for (size_t i = 0; i < 16; i++) { k += i < m ? sprintf(l + k, "%02x ", h->p[h->at + i]) : sprintf(l + k, "   "); if (i == 7 || i == 15) l[k++] = ' '; } l[k++] = ' '; l[k++] = '|'; for (size_t i = 0; i < m; i++) l[k++] = h->p[h->at + i] >= 32 && h->p[h->at + i] < 127 ? (char)h->p[h->at + i] : '.'; l[k++] = '|'; l[k++] = '\n';
    if ((size_t)k != n || memcmp(l, b, n)) { vh_viol("hex:big", "line at %zx: '%s', expected '%s'", h->at, vh_str((const unsigned char *)b, n), vh_str((unsigned char *)l, (size_t)k)); return -5; } h->at += m; return 0;
}
static ssize_t hdw(void *c, const char *b, size_t n) { return hdo(c, b, n) ? 0 : (ssize_t)n; }
static void hex(void)
{
    size_t n = vrp(60) ? 65500 + vrn(80) : (1u << 20) - 40 + vrn(100); unsigned char *s = malloc(n); vrbytes(s, n); vh_case("dump of %zu bytes", n);
    if (vrp(40)) { hd h = { s, n, 0 }; FILE *f = fopencookie(&h, "w", (cookie_io_functions_t){ .write = hdw }); setvbuf(f, 0, _IONBF, 0); int r = fhexdump(f, s, n); fclose(f); if ((r || h.at != n) && !vh_nviol) vh_viol("hex:big-all", "dumped %zu of %zu, returned %d", h.at, n, r); }
    else { hex_dumper d; hd h = { s, n, 0 }; hex_dump_init(&d, hdo, &h, HEX_DUMP_OFFSET); int r = hex_dump_write(&d, s, n); if ((r || h.at != n) && !vh_nviol) vh_viol("hex:big-all", "dumped %zu of %zu, returned %d", h.at, n, r); hex_dump_close(&d); }
    size_t k = tlen(); char *t = malloc(2 * k + 1); unsigned char *o = malloc(k); for (size_t i = 0; i < k; i++) sprintf(t + 2 * i, "%02x", (unsigned)(i * 37 + 5) & 255); ssize_t r = str2hex(o, k, t); if (r != (ssize_t)k) vh_viol("hex:big-parse", "%zd of %zu", r, k); else for (size_t i = 0; i < k; i++) if (o[i] != ((i * 37 + 5) & 255)) { vh_viol("hex:big-parse", "byte %zu", i); break; } if (str2hex(o, k - 1, t) != -ENOMEM) vh_viol("hex:big-small", "no room not reported"); free(t); free(o); free(s); vh_count("bytes", n + k);
}
static void lines(void)
{
    int nl = 3 + (int)vrn(6); size_t n = 0, len[10]; char *t = malloc(10 * 300020); for (int i = 0; i < nl; i++) { len[i] = vrp(60) ? tlen() : vrn(100); for (size_t q = 0; q < len[i]; q++) t[n++] = (char)('a' + (q + (size_t)i) % 26); t[n++] = '\n'; } FILE *f = fmemopen(t, n, "r"); unsigned char *b = malloc(400000); size_t at = 0; vh_case("%d lines, %zu characters", nl, n);
    for (int i = 0; i < nl; i++) { int cap = vrp(50) ? (int)len[i] + 1 : 400000, r = freadline(f, b, cap); if (r != (int)len[i] || memcmp(b, t + at, len[i]) || b[len[i]]) { vh_viol("readline:big", "line of %zu into %d returned %d", len[i], cap, r); break; } at += len[i] + 1; } if (!vh_nviol && freadline(f, b, 100)) vh_viol("readline:big", "no end of file"); fclose(f); free(t); free(b); vh_count("characters", n);
}
static void fht(void)
{
    size_t n = big() + (vrp(40) ? 300000 : 0), i; ht *h = ht_new(1u << vrn(8), vrp(50) ? 0 : 50 + (uint32_t)vrn(45)); uint64_t b = vr(); vh_case("%zu keys", n); if (!h) BAD("ht:big", "cannot create");
    #define HK(i) (vh_mix(b + (i)) | 1)
    #define HV(i) ((void *)(uintptr_t)((i) * 16 + 8))
    for (i = 0; i < n; i++) { void *r = ht_probe(h, HK(i), HV(i)); if (r) { vh_viol("ht:big-probe", "key %zu of %zu found before it was added", i, n); break; } }
    if (h->nodes != n) vh_viol("ht:big-count", "%llu entries, expected %zu", (unsigned long long)h->nodes, n);
    for (i = 0; i < n && !vh_nviol; i++) { void *p = 0; if (!ht_find(h, HK(i), &p) || p != HV(i)) vh_viol("ht:big-find", "key %zu of %zu", i, n); }
    for (i = 0; i < n && !vh_nviol; i += 2) { void *p = 0; if (!ht_remove(h, HK(i), &p) || p != HV(i)) vh_viol("ht:big-remove", "key %zu of %zu", i, n); }
    for (i = 0; i < n && !vh_nviol; i++) { void *p = 0; int f = ht_find(h, HK(i), &p); if (!!f != (int)(i & 1) || (f && p != HV(i))) vh_viol("ht:big-find", "after removals: key %zu of %zu", i, n); }
    if (h->nodes != n / 2) vh_viol("ht:big-count", "%llu entries, expected %zu", (unsigned long long)h->nodes, n / 2);
    for (i = 0; i < n && !vh_nviol; i += 2) { void *r = ht_probe(h, HK(i), HV(i)); if (r) vh_viol("ht:big-probe", "key %zu found after its removal", i); } for (i = 0; i < n && !vh_nviol; i++) { void *p = 0; if (!ht_find(h, HK(i), &p) || p != HV(i)) vh_viol("ht:big-find", "key %zu of %zu, added again", i, n); } ht_del(h); vh_count("keys", n);
}
static uint32_t th(const void *p) { return (uint32_t)vh_mix(*(const uint32_t *)p); } static int tc(const void *a, const void *b) { uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b; return x < y ? -1 : x > y; }
static long tdead, tapp; static void td(void *p) { (void)p; tdead++; } static void tap(void *c, const void *p) { (void)c; (void)p; tapp++; } static int tif(void *c, const void *p) { (void)c; return *(const uint32_t *)p & 1; }
static void tab(void)
{
    size_t n = big(), i, miss = 0; uint32_t *k = malloc(n * 4); for (i = 0; i < n; i++) k[i] = (uint32_t)i; hash_table_policy p; memset(&p, 0, sizeof p); p.hash = th; p.cmp = tc; p.dtor = td; p.logsize = vrn(6); p.fillmax = vrp(50) ? 0 : 50 + vrn(45); memmgr_init_default(&p.mem); hash_table_t t = 0; vh_case("%zu keys, logsize %zu", n, p.logsize); tdead = tapp = 0;
    if (hash_table_new(&t, &p)) { free(k); BAD("tab:big", "cannot create"); } for (i = 0; i < n; i++) if (hash_table_insert(t, &k[i])) { vh_viol("tab:big-insert", "key %zu of %zu", i, n); break; }
    for (i = 0; i < n && !vh_nviol; i++) { void *r = 0; uint32_t q = (uint32_t)i; if (!hash_table_lookup(t, &q, &r) || r != &k[i]) vh_viol("tab:big-lookup", "key %zu of %zu", i, n); } uint32_t q = (uint32_t)n; void *r = 0; if (hash_table_lookup(t, &q, &r)) vh_viol("tab:big-lookup", "an absent key is found");
    hash_table_stat st; hash_table_stats(t, &st); if ((size_t)st.size * 8 < n) vh_viol("tab:big-growth", "%zu keys in only %zu buckets", n, (size_t)st.size); if (st.nodes != n) vh_viol("tab:big-count", "%zu entries, expected %zu", st.nodes, n); hash_table_apply(t, tap, 0); if ((size_t)tapp != n) vh_viol("tab:big-apply", "%ld calls for %zu entries", tapp, n);
    hash_table_iter_t it; unsigned char *seen = calloc(n, 1); size_t ns = 0; int sorted = (int)vrn(2); if (!hash_table_iter_new(&it, t, sorted)) { uint32_t last = 0; for (int m = hash_table_iter_first(it); m == 0 && ns <= n; m = hash_table_iter_next(it)) { uint32_t *x = hash_table_iter_item(it); if (sorted && ns && *x <= last) { vh_viol("tab:big-sorted", "%u after %u", *x, last); break; } last = *x; if (seen[*x]++) { vh_viol("tab:big-iter", "key %u twice", *x); break; } ns++; } hash_table_iter_delete(it); if (ns != n && !vh_nviol) vh_viol("tab:big-iter", "%zu of %zu entries", ns, n); } free(seen);
    for (i = 0; i < n && !vh_nviol; i += 3) { void *o = 0; int x = hash_table_remove(t, &k[i], &o); (void)o; if (x) vh_viol("tab:big-remove", "key %zu: %d", i, x); else miss++; } hash_table_stats(t, &st); if (st.nodes != n - miss) vh_viol("tab:big-count", "%zu entries, expected %zu", st.nodes, n - miss); (void)tif; hash_table_delete(t); free(k); vh_count("keys", n);
}
static void pool(void)
{
    size_t n = big(), i, lim = vrp(50) ? n : 0; unsigned bs = 8 + (unsigned)vrn(60), un = vrp(50) ? 0 : vrp(50) ? 1 + (unsigned)vrn(300) : 65000 + (unsigned)vrn(3000); mempool *a; unsigned char **p = malloc((n + 1) * sizeof *p); vh_case("%zu blocks of %u, limit %zu, units %u", n, bs, lim, un); if (mempool_new(&a, 0, bs, (unsigned)lim, un)) { free(p); BAD("pool:big", "cannot create"); }
    for (int round = 0; round < 2 && !vh_nviol; round++) { for (i = 0; i < n; i++) { if (!(p[i] = mempool_alloc(a))) { vh_viol("pool:big-alloc", "block %zu of %zu refused", i, n); break; } *(uint64_t *)p[i] = i * 7 + 1; } if (vh_nviol) break; if (lim && mempool_alloc(a)) vh_viol("pool:big-limit", "more than %zu blocks", lim); for (i = 0; i < n; i++) if (*(uint64_t *)p[i] != i * 7 + 1) { vh_viol("pool:big-overlap", "block %zu was overwritten", i); break; } for (i = 0; i < n; i++) mempool_free(a, p[(i * 7919) % n == i || 1 ? i : i]); }
    mempool_delete(a); free(p); vh_count("blocks", n);
    /* memory given by the caller */
    size_t ms = (1u << 20) + vrn(1u << 20); unsigned char *m = malloc(ms); if (mempool_new_from_mem(&a, 16, m, (unsigned)ms)) BAD("pool:big-mem", "refused"); n = 0; unsigned char *prev = 0, *x; while ((x = mempool_alloc(a)) && n < ms) { if (x < m || x + 16 > m + ms) { vh_viol("pool:big-mem", "block outside"); break; } memset(x, (int)n, 16); (void)prev; prev = x; n++; } if (n < ms / 16 - 200) vh_viol("pool:big-mem", "%zu blocks of 16 in %zu bytes", n, ms); mempool_delete(a); free(m);
}
static void aren(void)
{
    arena_t a; size_t n = big(), i; unsigned char **p = malloc(n * sizeof *p); uint32_t *l = malloc(n * 4); if (arena_new(&a, vrp(50) ? 0 : 64 + vrn(100000))) { vh_viol("arena:big", "cannot create"); n = 0; a = 0; } vh_case("%zu allocations", n);
    for (i = 0; i < n; i++) { l[i] = (uint32_t)(vrp(1) ? vrn(200000) : 1 + vrn(60)); p[i] = arena_alloc(a, l[i]); if (!p[i]) { vh_viol("arena:big", "allocation %zu of %u refused", i, l[i]); break; } memset(p[i], (int)(i * 31), l[i]); } for (i = 0; i < n && !vh_nviol; i++) for (size_t q = 0; q < l[i]; q++) if (p[i][q] != (unsigned char)(i * 31)) { vh_viol("arena:big", "allocation %zu was overwritten", i); break; } if (a) arena_delete(a); free(p); free(l); vh_count("blocks", n);
}
static void blm(void)
{
    uint64_t n = 40 + vrn(300), m = n * 600 + vrn(50000), b = vr(), i; Bloom *f = Standard_bloom_new(n, 0.01, 1); vh_case("scalable filter for %llu holding %llu", (unsigned long long)n, (unsigned long long)m); if (!f) BAD("bloom:big", "cannot create");
    for (i = 0; i < m; i++) { Bloom_probe(f, vh_mix(b + i)); if (!Bloom_find(f, vh_mix(b + i))) { vh_viol("bloom:big", "key %llu not found at once", (unsigned long long)i); break; } } for (i = 0; i < m && !vh_nviol; i++) if (!Bloom_find(f, vh_mix(b + i))) vh_viol("bloom:big", "key %llu of %llu forgotten", (unsigned long long)i, (unsigned long long)m);
    uint64_t fp = 0; for (i = 0; i < 20000; i++) fp += !!Bloom_find(f, vh_mix(b ^ 0x77777) + i * 0x9e3779b97f4a7c15ull); if (fp > 20000 * 0.1 * 1.6 + 100) vh_viol("bloom:big-fp", "%llu of 20000 absent keys found", (unsigned long long)fp); Bloom_delete(f); vh_count("keys", m);
    n = 600000 + vrn(600000); f = vrp(50) ? Standard_bloom_new(n, 0.01, 0) : Counting_bloom_new(n / 4, 0.01); uint64_t c = f && n ? n / 4 : 0; if (!f) BAD("bloom:big", "cannot create"); for (i = 0; i < c; i++) Bloom_probe(f, vh_mix(b + i)); for (i = 0; i < c && !vh_nviol; i++) if (!Bloom_find(f, vh_mix(b + i))) vh_viol("bloom:big", "key %llu of %llu forgotten", (unsigned long long)i, (unsigned long long)c); for (fp = i = 0; i < 20000; i++) fp += !!Bloom_find(f, vh_mix(b ^ 0x77777) + i * 0x9e3779b97f4a7c15ull); if (fp > 20000 * 0.01 * 1.6 + 100) vh_viol("bloom:big-fp", "%llu of 20000 absent keys found", (unsigned long long)fp); Bloom_delete(f); vh_count("keys", c);
}
FQ_DYN_TYPEDEF(dq, uint32_t);
static void fq(void)
{
    uint32_t sz = (uint32_t)big(), n = 0, hd = 0, x; dq q; FQ_DYN_INIT(&q, sz); vh_case("queue of %u", sz); for (int round = 0; round < 3 && !vh_nviol; round++) { while (FQ_ENQ(&q, hd + n)) { n++; if (FQ_SIZE(&q) != n) { vh_viol("fq:big", "size %u, expected %u", (unsigned)FQ_SIZE(&q), n); break; } } if (n + 1 < sz || !FQ_FULL_P(&q)) vh_viol("fq:big", "full with %u of %u", n, sz); uint32_t k = n - (uint32_t)vrn(n); while (k--) { if (!FQ_DEQ(&q, x) || x != hd) { vh_viol("fq:big", "element %u out of order", hd); break; } hd++; n--; } } FQ_DYN_FINI(&q);
    fast_buf b; fast_buf_init(&b, vrn(10)); size_t t = 0; for (int k = 0; k < 12; k++) { size_t l = tlen(); unsigned char *s = malloc(l); memset(s, k, l); if (vrp(50)) fast_buf_append_buf(&b, s, l); else { fast_buf_grow(&b, l); memcpy(fast_buf_ptr(&b) + t, s, l); fast_buf_advance(&b, l); } t += l; if (fast_buf_len(&b) != t || fast_buf_cap(&b) < t || (fast_buf_ptr(&b))[t - 1] != k || (fast_buf_ptr(&b))[t - l] != k) vh_viol("buf:big", "length %zu capacity %zu, expected %zu", fast_buf_len(&b), fast_buf_cap(&b), t); free(s); } fast_buf_fini(&b); vh_count("elements", sz + t);
}
static void bits(void)
{
    size_t n = vrp(70) ? ((size_t)1 << 32) + 64 + vrn(100000) : ((size_t)1 << (20 + vrn(12))) + vrn(9999); bitset *b = bitset_new(n); vh_case("%zu bits", n); size_t p[60]; int k = 0; for (; k < 60; k++) { p[k] = vrp(40) ? n - 1 - vrn(70000) : vrn(n); bitset_set(b, p[k]); if (!bitset_isset(b, p[k])) { vh_viol("bitset:big", "bit %zu not set", p[k]); break; } if (bitset_value(b, p[k]) != 1) vh_viol("bitset:big", "value of bit %zu", p[k]); }
    for (int i = 0; i < 300 && !vh_nviol; i++) { size_t q = vrp(50) ? p[vrn(60)] ^ ((size_t)1 << vrn(33)) : vrn(n); if (q >= n) continue; int w = 0; for (int z = 0; z < 60; z++) w |= p[z] == q; if (bitset_isset(b, q) != w) vh_viol("bitset:big", "bit %zu of %zu reads %d", q, n, !w); }
    for (int i = 0; i < 30 && !vh_nviol; i++) { bitset_clr(b, p[i]); for (int z = i + 1; z < 60; z++) { int again = 0; for (int y = 0; y <= i; y++) again |= p[y] == p[z]; if (!again && !bitset_isset(b, p[z])) { vh_viol("bitset:big", "clearing %zu clears %zu", p[i], p[z]); break; } } if (bitset_isset(b, p[i])) vh_viol("bitset:big", "bit %zu not cleared", p[i]); } bitset_del(b); vh_count("bits", n);
    n = big() + 100; bitset *c = bitset_new(n), *d = bitset_new(n); for (size_t i = 0; i < n; i++) { if (i % 3 == 0) bitset_set(c, i); if (i % 5 == 0) bitset_set(d, i); } int op = (int)vrn(5); switch (op) { case 0: bitset_or(c, d); break; case 1: bitset_and(c, d); break; case 2: bitset_xor(c, d); break; case 3: bitset_andnot(c, d); break; default: bitset_not(c); } for (size_t i = 0; i < n && !vh_nviol; i++) { int x = i % 3 == 0, y = i % 5 == 0, w = op == 0 ? x | y : op == 1 ? x & y : op == 2 ? x ^ y : op == 3 ? x & !y : !x; if (bitset_isset(c, i) != w) vh_viol("bitset:big-op", "operation %d, bit %zu of %zu", op, i, n); } bitset_del(c); bitset_del(d);
}
static void str(void)
{
    size_t n = tlen(), a = vrn(n), z = vrn(n - a); char *t = malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = (char)(i < a || i >= n - z ? ' ' : 'a' + i % 26); t[n] = 0; vh_case("string of %zu, %zu and %zu blank", n, a, z); char *w = vh_dup(t, n + 1); char *r = strtrim(t); if (strlen(r) != n - a - z || memcmp(r, w + a, n - a - z)) vh_viol("str:big-trim", "%zu, expected %zu", strlen(r), n - a - z);
    char *d = malloc(n + 1); ssize_t k = strcopy(d, n + 1, w); if (k < 0 || strcmp(d, w)) vh_viol("str:big-copy", "strcopy of %zu returned %zd", n, k); k = strcopy(d, n, w); if (k >= 0 || d[n - 1]) vh_viol("str:big-short", "strcopy of %zu into %zu returned %zd", n, n, k); free(d); free(t); free(w); vh_count("characters", n);
}
static void esc(void)
{
    size_t n = tlen(); char *t = malloc(n + 3); for (size_t i = 0; i < n; i++) t[i] = (char)(i % 11 == 0 ? '"' : i % 13 == 0 ? '\n' : i % 17 == 0 ? '\\' : 'a' + i % 26); t[n] = 0; gstr g; gstr_init_from(&g, t); vh_case("escaping %zu", n); gstr_escape(&g, "\"\n", '\\'); size_t i = 0, k = 0; while (i < g.len) { if (g.str[i] == 0x5c && g.str[++i] == 0x30) for (int z = 0; z < 3 && g.str[i + 1] >= 0x30 && g.str[i + 1] <= 0x37; z++) i++; i++; k++; } if (k != n) vh_viol("esc:big", "%zu characters became %zu", n, k); gstr_unescape(&g, '\\'); if (g.len != n || memcmp(g.str, t, n)) vh_viol("esc:big", "round trip of %zu gave %zu", n, g.len); gstr_fini(&g);
    memset(t, 'x', n + 2); t[0] = t[n + 1] = '\''; t[n + 2] = 0; char *p; int r = strunquote(t, &p); if (r != '\'' || p != t + 1 || strlen(p) != n) vh_viol("esc:big-unquote", "%d", r); free(t); vh_count("characters", n);
}
static const char *vf(void *c, const char *k) { static char *v; if (!v) { v = malloc(200001); memset(v, 'v', 200000); v[200000] = 0; } (void)c; return strlen(k) > 200 ? "long" : *k == 'B' ? v : "x"; }
static void var(void)
{
    size_t n = 0, w = 0, parts = 200 + vrn(2000), lk = 3 * (size_t)tlen(); char *t = malloc(parts * 30 + lk + 100); int bigs = 0; for (size_t i = 0; i < parts; i++) { if (vrp(1) && bigs < 6) { n += (size_t)sprintf(t + n, "${B}"); w += 200000; bigs++; } else if (vrp(50)) { n += (size_t)sprintf(t + n, "${a%zu}/", i); w += 2; } else { n += (size_t)sprintf(t + n, "text%zu ", i); w += strlen(t + n - 1) ? 0 : 0; char b[40]; w += (size_t)sprintf(b, "text%zu ", i); } } if (vrp(50)) { t[n++] = '$'; t[n++] = '{'; memset(t + n, 'k', lk); n += lk; t[n++] = '}'; w += 4; } t[n] = 0; vh_case("expansion of %zu parts, %zu to %zu", parts, n, w);
    gstr g; gstr_init_from(&g, t); int r = gstr_varexp(&g, vf, 0); if (r || g.len != w || g.str[w]) vh_viol("var:big", "returned %d, %zu characters, expected %zu", r, g.len, w); gstr_fini(&g); free(t); vh_count("characters", w);
}
static void getopt_(void)
{
    int n = vrp(50) ? 250 + (int)vrn(20) : 500 + (int)vrn(3000), k, no = 0, np = 0; char **av = malloc(sizeof *av * (size_t)(n + 1)), **orig = malloc(sizeof *av * (size_t)(n + 1)); int longs = vrp(50), *isop = calloc((size_t)n + 1, sizeof(int)); static struct option *lo; int nl = 300; if (!lo) { lo = calloc((size_t)nl + 1, sizeof *lo); for (k = 0; k < nl; k++) { char *s = malloc(20); sprintf(s, "name%d", k); lo[k].name = s; lo[k].val = 1000 + k; lo[k].has_arg = k % 2; } }
    av[0] = strdup("p"); for (k = 1; k < n; k++) { char b[40]; if (vrp(50)) { sprintf(b, "operand%d", k); isop[k] = 1; np++; } else if (longs) sprintf(b, "--name%d%s", (int)vrn(150) * 2, ""); else sprintf(b, "-%s", vrp(50) ? "a" : "ab"); av[k] = strdup(b); } av[n] = 0; memcpy(orig, av, sizeof *av * (size_t)(n + 1)); optind = 0; opterr = 0; vh_case("%d arguments%s", n, longs ? ", long options" : ""); int c, at = 1;
    while ((c = getopt_long(n, av, "ab", longs ? lo : lo + nl, 0)) != -1) { while (at < n && isop[at]) at++; if (at == n) { vh_viol("getopt:big", "too many results"); break; } if (longs) { int w = atoi(orig[at] + 6) + 1000; if (c != w) { vh_viol("getopt:big", "argument %d of %d: %d, expected %d", at, n, c, w); break; } at++; } else if (c == 'a' && orig[at][2]) { c = getopt_long(n, av, "ab", lo + nl, 0); if (c != 'b') { vh_viol("getopt:big", "argument %d: %d after a", at, c); break; } at++; } else if (c == 'a') at++; else { vh_viol("getopt:big", "argument %d of %d: %d", at, n, c); break; } no++; }
    if (!vh_nviol) { if (optind != n - np) vh_viol("getopt:big-operands", "first operand at %d, expected %d", optind, n - np); else { at = 1; for (k = optind; k < n; k++) { while (!isop[at]) at++; if (av[k] != orig[at++]) { vh_viol("getopt:big-order", "operand %d", k); break; } } } } for (k = 0; k < n; k++) free(orig[k]); free(av); free(orig); free(isop); vh_count("arguments", (uint64_t)n); (void)no;
}
static void pack(void)
{   /* counts above 2^16 in the template and as arguments, strings longer than 2^16 */
    size_t n = big(), i, l = tlen(); vh_case("pack of %zu integers and a string of %zu", n, l); uint32_t *u = malloc(4 * n), *v = calloc(n, 4), k = 0, *w = 0; uint16_t *h = malloc(2 * n), a = 0; for (i = 0; i < n; i++) u[i] = (uint32_t)vr(), h[i] = (uint16_t)vr(); char *t = malloc(l + 1), *t2 = 0; for (i = 0; i < l; i++) t[i] = (char)('a' + i % 26); t[l] = 0;
    char fmt[60]; int big_ = vrp(50); snprintf(fmt, sizeof fmt, "%c S %zuI * S z", big_ ? '>' : '<', n); size_t need = 2 + 4 * n + 4 + 2 * n + l + 1, room = need + vrn(3); uint8_t *b = malloc(room); ssize_t r = Pack(b, room, fmt, 0xbeef, u, (uint32_t)n, h, t);
    if (r < 0) vh_viol("pack:big", "returned %zd (%s, string of %zu, %zu needed)", r, fmt, l, need); else { need = (size_t)r; for (i = 0; i < n; i++) { uint8_t *q = b + 2 + 4 * i; uint32_t x = big_ ? (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | q[3] : (uint32_t)q[3] << 24 | (uint32_t)q[2] << 16 | (uint32_t)q[1] << 8 | q[0]; if (x != u[i]) { vh_viol("pack:big-enc", "integer %zu of %zu", i, n); break; } }
        uint16_t *h2 = 0; r = Unpack(b, need, fmt, &a, v, &k, &h2, &t2); if (r != (ssize_t)need) vh_viol("pack:big-dec", "%zd of %zu bytes decoded", r, need); else { if (a != 0xbeef || memcmp(u, v, 4 * n) || k != n || memcmp(h, h2, 2 * n) || strcmp(t, t2)) vh_viol("pack:big-round", "%zu integers, %u halves", n, k); free(h2); free(t2); }
        uint8_t *sm = malloc(need - 1); r = Pack(sm, need - 1, fmt, 0xbeef, u, (uint32_t)n, h, t); if (r >= 0) vh_viol("pack:big-small", "%zd bytes in %zu", r, need - 1); free(sm); }
    (void)w; free(u); free(v); free(h); free(t); free(b); vh_count("integers", 2 * n);
}
/* rings whose capacity needs more than 16 bits */
SYNCQ_TYPEDEF(bsq, uint32_t, 131072); SPSCQ_DYN_TYPEDEF(bspsc, uint32_t); MPMC_QUEUE_TYPE(bmp, uint32_t);
static void rings(int which)
{
    uint32_t hd = 0, n = 0, x = 0, cap = which ? 65536u << vrn(3) : 131072; vh_case("ring of %u", cap); bsq *s = calloc(1, sizeof *s); bspsc p; struct bmp *m = 0;
    if (which == 0) { if (SYNCQ_INIT(s, cap)) BAD("syncq:big", "cannot create"); } else if (which == 1) SPSCQ_DYN_INIT(&p, cap); else m = MPMC_QUEUE_NEW(struct bmp, cap);
    for (int round = 0; round < 4 && !vh_nviol; round++) {
        if (which == 0) { uint32_t k = cap - n; while (k--) { uint32_t e = hd + n; SYNCQ_ENQ(s, e); n++; } }
        else for (;;) { uint32_t e = hd + n; int r = which == 1 ? SPSCQ_ENQ(&p, e) : MPMC_QUEUE_ENQ(m, e); if (!r) break; n++; if (n > cap) { vh_viol("ring:big", "%u elements in %u", n, cap); break; } }
        if (n < cap - 1) vh_viol("ring:big", "full with %u of %u", n, cap); if (which == 1 && SPSCQ_SIZE(&p) != n) vh_viol("ring:big", "size %u, expected %u", (unsigned)SPSCQ_SIZE(&p), n); if (which == 2 && MPMC_QUEUE_SIZE(m) != n) vh_viol("ring:big", "size %zu, expected %u", MPMC_QUEUE_SIZE(m), n);
        uint32_t k = 1 + (uint32_t)vrn(n); while (k-- && !vh_nviol) { int r = 1; if (which == 0) x = SYNCQ_DEQ(s); else r = which == 1 ? SPSCQ_DEQ(&p, x) : MPMC_QUEUE_DEQ(m, x); if (!r || x != hd) vh_viol("ring:big-order", "element %u, expected %u", x, hd); hd++; n--; }
    }
    if (which == 0) SYNCQ_FINI(s); else if (which == 1) SPSCQ_DYN_FINI(&p); else MPMC_QUEUE_DEL(m); free(s); vh_count("elements", hd);
}
static void sq(void) { rings(0); } static void sp(void) { rings(1); } static void mp(void) { rings(2); }
int main(int argc, char **argv)
{
    vh_init(argc, argv); static const struct { const char *n; void (*f)(void); } P[] = { { "vect", vect }, { "gstr", gstr_ }, { "split", split }, { "args", args }, { "b64", b64 }, { "hex", hex }, { "lines", lines }, { "fht", fht }, { "tab", tab }, { "pool", pool }, { "arena", aren }, { "bloom", blm }, { "fq", fq }, { "bits", bits }, { "str", str }, { "esc", esc }, { "var", var }, { "getopt", getopt_ }, { "pack", pack }, { "syncq", sq }, { "spsc", sp }, { "mpmc", mp } };
    void (*f)(void) = 0; for (size_t i = 0; i < sizeof P / sizeof *P; i++) if (!strcmp(P[i].n, vh_mode)) f = P[i].f; if (!f) { vh_emitf("@X", "no such part"); return 3; }
    for (uint64_t c = 0; c < vh_cases; c++) { if (!vh_begin(c)) continue; ent = vr(); f(); vh_count("evals", 1); vh_count("big_cases", 1); vh_sig(vh_h(vr(), c)); if (c < 1) vh_sample("%s", vh_casebuf); if (vh_nviol) break; }
    return vh_end();
}

/* strings, buffers and vectors longer than 2^31 (where memory allows 2^32) bytes: lengths that an int cannot hold */
#include "vh.h"
#include <assert.h>
#include <errno.h>
#include "utils/utils.h"
#include "utils/gstring.h"
#include "utils/strutils.h"
#include "fast/vect.h"
#include "fast/buf.h"
#define U(x) ((unsigned long long)(x))
#define G31 ((size_t)1 << 31)
static inline char P(size_t i) { return (char)('a' + (i * 0x9e3779b97f4a7c15ull >> 59) % 26); }
static char *txt(size_t n) { char *s = malloc(n + 1); if (!s) vh_emitf("@X", "no memory"); for (size_t i = 0; i < n; i++) s[i] = P(i); s[n] = 0; return s; }
static int same(const char *s, size_t n, size_t from) { for (size_t i = 0; i < n; i++) if (s[i] != P(from + i)) return 0; return 1; }
static size_t glen(void) { static const int d[] = { -2, -1, 0, 1, 2, 63, 4096 }; return G31 + (size_t)(long)d[vrn(7)] + (vrp(30) ? vrn(100000) : 0); }
static void gs(void)
{
    size_t n = glen(), pre = vrn(40); char *s = txt(pre + n); gstr g, h; vh_case("gstring: %zu characters appended to %zu", n, pre); gstr_init(&g, vrn(100));
    char *head = strndup(s, pre); gstr_append_str(&g, head); free(head); size_t r = gstr_append_str(&g, s + pre); if (r != pre + n || gstr_len(&g) != pre + n || gstr_cap(&g) <= pre + n || memcmp(gstr_str(&g), s, pre + n + 1)) vh_viol("gstr:giant-append", "length %zu, returned %zu", gstr_len(&g), r);
    if (!vh_nviol) { free(s); s = 0; gstr_init(&h, 3); gstr_append_str(&h, "xyz"); gstr_copy(&h, &g); if (gstr_len(&h) != pre + n || !same(gstr_str(&h), pre + n, 0)) vh_viol("gstr:giant-copy", "length %zu", gstr_len(&h)); gstr_append_ch(&h, '!'); gstr_append_ch(&h, '?'); if (gstr_len(&h) != pre + n + 2 || h.str[pre + n] != '!' || h.str[pre + n + 1] != '?' || h.str[pre + n + 2]) vh_viol("gstr:giant-ch", "length %zu", gstr_len(&h)); }
    if (!vh_nviol) { gstr_append(&g, &h); if (gstr_len(&g) != 2 * (pre + n) + 2 || !same(g.str + pre + n, pre + n, 0) || g.str[2 * (pre + n) + 2]) vh_viol("gstr:giant-twice", "length %zu", gstr_len(&g)); gstr_truncate(&g, pre + n + 7); if (gstr_len(&g) != pre + n + 7 || g.str[pre + n + 7] || !same(g.str, pre + n, 0)) vh_viol("gstr:giant-truncate", "length %zu", gstr_len(&g)); gstr_fini(&h); }
    free(s); gstr_fini(&g);
}
static void gs2(void)
{   /* trimming, quoting, escaping */
    size_t n = glen(), a = 1 + vrn(9), b = vrn(9); char *s = txt(n + a + b); memset(s, ' ', a); memset(s + a + n, '\t', b); gstr g; vh_case("gstring of %zu: trim, unquote, escape", n); gstr_init_from(&g, s); if (gstr_len(&g) != n + a + b) vh_viol("gstr:giant-init", "length %zu", gstr_len(&g)); gstr_trim(&g);
    if (gstr_len(&g) != n || g.str[n] || !same(g.str, n, a)) vh_viol("gstr:giant-trim", "length %zu, expected %zu", gstr_len(&g), n); gstr_fini(&g);
    s[0] = s[n - 1] = '"'; s[n] = 0; for (size_t i = 1; i < n - 1; i++) s[i] = P(i); gstr_init_from(&g, s); int q = gstr_unquote(&g); if (q != '"' || gstr_len(&g) != n - 2 || !same(g.str, n - 2, 1)) vh_viol("gstr:giant-unquote", "%d, length %zu", q, gstr_len(&g));
    char *in = 0; q = strunquote(s, &in); if (q != '"' || in != s + 1 || in[n - 2] || !same(in, n - 2, 1)) vh_viol("unquote:giant", "returned %d", q); free(s);
    if (!vh_nviol) { size_t i, k = 0, m = n - 2; for (i = 0; i < m; i++) if (g.str[i] == 'q') k++; gstr_escape(&g, "q", '\\'); if (gstr_len(&g) < m + k) vh_viol("escape:giant", "length %zu of %zu", gstr_len(&g), m + k); gstr_unescape(&g, '\\'); if (gstr_len(&g) != m || !same(g.str, m, 1)) vh_viol("escape:giant-round", "length %zu of %zu", gstr_len(&g), m); } gstr_fini(&g);
}
static void str(void)
{
    size_t n = glen(), a = 1 + vrn(9), b = vrn(9); char *s = txt(n + a + b); memset(s, ' ', a); memset(s + a + n, '\n', b); vh_case("string of %zu: trim, copy, split", n); char *t = strtrim(s); size_t l = strlen(t); if (l != n || !same(t, n, a)) vh_viol("strtrim:giant", "length %zu of %zu", l, n);
    char *d = malloc(n + 1); ssize_t r = strcopy(d, n + 1, t); if (r != (ssize_t)n || strlen(d) != n || memcmp(d, t, n + 1)) vh_viol("strcopy:giant", "returned %zd of %zu", r, n); r = strcopy(d, n, t); if (r != -ENOSPC && r != (ssize_t)n - 1 && r >= 0) vh_viol("strcopy:giant-short", "returned %zd", r); if (strlen(d) != n - 1) vh_viol("strcopy:giant-short", "copied %zu", strlen(d));
    memcpy(d, t, n + 1); size_t c1 = 5 + vrn(99), c2 = n - 5 - vrn(99); d[c1] = ','; d[c2] = ';'; int k = 0; char **v = strsplit(&k, d, ",;", 0); if (k != 3 || v[0] != d || v[1] != d + c1 + 1 || v[2] != d + c2 + 1 || strlen(v[1]) != c2 - c1 - 1 || v[1][0] != t[c1 + 1]) vh_viol("strsplit:giant", "%d parts", k); free(v);
    memcpy(d, t, n + 1); d[c1] = ','; d[c2] = ','; char *w[4]; k = strsplit_csv(w, 4, d, ","); if (k != 3 || strlen(w[0]) != c1 || strlen(w[1]) != c2 - c1 - 1 || strlen(w[2]) != n - c2 - 1 || memcmp(w[1], t + c1 + 1, c2 - c1 - 1)) vh_viol("csv:giant", "%d fields", k);
    memcpy(d, t, n + 1); d[c1] = ' '; d[c2] = ' '; d[c1 + 1] = '"'; d[c2 - 1] = '"'; d[c1 + 9] = ' '; k = strsplitargs(w, 4, d); if (k != 3 || strlen(w[0]) != c1 || strlen(w[1]) != c2 - c1 - 3 || w[1][7] != ' ' || memcmp(w[1] + 8, t + c1 + 10, c2 - c1 - 11)) vh_viol("splitargs:giant", "%d arguments", k);
    free(d); free(s);
}
static void hx(void)
{
    size_t n = glen() + vrn(2) * G31, i; char *s = malloc(n + 1); uint8_t *o = malloc((n + 1) / 2); vh_case("%zu hexadecimal digits", n); for (i = 0; i < n; i++) s[i] = "0123456789abcdefABCDEF"[(i * 0x9e3779b97f4a7c15ull >> 40) % 22]; s[n] = 0; ssize_t r = str2hex(o, (n + 1) / 2, s); if (r != (ssize_t)((n + 1) / 2)) vh_viol("str2hex:giant", "returned %zd of %zu", r, (n + 1) / 2);
    else for (i = 0; i < n; i++) { int c = s[i], x = c <= '9' ? c - '0' : (c | 32) - 'a' + 10, y = i & 1 ? o[i / 2] & 15 : o[i / 2] >> 4; if (x != y) { vh_viol("str2hex:giant", "digit %zu of %zu", i, n); break; } }
    r = str2hex(o, (n + 1) / 2 - 1, s); if (r != -ENOMEM) vh_viol("str2hex:giant-small", "returned %zd", r); free(s); free(o);
}
static void bf(void)
{
    size_t n = glen(), k = vrn(50); char *s = txt(n); fast_buf b; fast_buf_init(&b, vrn(90)); vh_case("buffer: %zu bytes twice after %zu", n, k); for (size_t i = 0; i < k; i++) fast_buf_append_byte(&b, (uint8_t)i); fast_buf_append_buf(&b, (uint8_t *)s, n); fast_buf_append_buf(&b, (uint8_t *)s, n); fast_buf_append_byte(&b, 7);
    if (fast_buf_len(&b) != k + 2 * n + 1 || fast_buf_cap(&b) < k + 2 * n + 1 || memcmp(fast_buf_ptr(&b) + k, s, n) || memcmp(fast_buf_ptr(&b) + k + n, s, n) || fast_buf_ptr(&b)[k + 2 * n] != 7) vh_viol("buf:giant", "length %zu", fast_buf_len(&b)); for (size_t i = 0; i < k; i++) if (fast_buf_ptr(&b)[i] != (uint8_t)i) vh_viol("buf:giant", "byte %zu", i); fast_buf_fini(&b); free(s);
}
VECT_TYPEDEF(v8, uint8_t);
static void vc(void)
{
    size_t n = glen() + vrn(2) * G31, i; v8 v, w; VECT_INIT(&v, vrn(99)); VECT_INIT(&w, 4); vh_case("vector of %zu", n); VECT_ENSURE(&v, n); for (i = 0; i < n; i++) VECT_GET_NEXT(&v) = (uint8_t)P(i); VECT_PUSH_BACK(&v, 1); VECT_PUSH_BACK(&v, 2); if (VECT_LEN(&v) != n + 2 || !same((char *)v.arr, n, 0) || VECT_ELEM(&v, n) != 1 || VECT_LAST_ELEM(&v) != 2) vh_viol("vect:giant", "length %zu", VECT_LEN(&v));
    VECT_PUSH_BACK(&w, 9); VECT_APPEND_VECT(&w, &v); if (VECT_LEN(&w) != n + 3 || VECT_FIRST_ELEM(&w) != 9 || !same((char *)w.arr + 1, n, 0)) vh_viol("vect:giant-append", "length %zu", VECT_LEN(&w)); uint8_t x = VECT_POP_FRONT(&w), y = VECT_POP_BACK(&w); if (x != 9 || y != 2 || VECT_LEN(&w) != n + 1 || !same((char *)w.arr, n, 0)) vh_viol("vect:giant-pop", "length %zu", VECT_LEN(&w)); VECT_PUSH_FRONT(&w, 8); if (w.arr[0] != 8 || !same((char *)w.arr + 1, n, 0)) vh_viol("vect:giant-front", "moved"); VECT_COPY(&v, &w); if (VECT_LEN(&v) != n + 2 || memcmp(v.arr, w.arr, n + 2)) vh_viol("vect:giant-copy", "length %zu", VECT_LEN(&v)); VECT_FINI(&v); VECT_FINI(&w);
}
#include "fast/bitset.h"
static void bs(void)
{   /* more than 2^32 bits */
    size_t n = ((size_t)1 << 32) + 64 + vrn(1000), pos[400]; int k = 0; bitset *a = bitset_new(n), *b = bitset_new(n); vh_case("sets of %zu bits", n); if (a->n * 64 < n) { vh_viol("bitset:giant", "%llu words for %zu bits", U(a->n), n); return; }
    for (; k < 100; k++) { static const size_t base[] = { 0, G31 - 70, G31, ((size_t)1 << 32) - 70, (size_t)1 << 32 }; pos[k] = base[vrn(5)] + vrn(64); bitset_set(vrp(50) ? a : b, pos[k]); }
    size_t ca = 0, cb = 0, co = 0; for (size_t i = 0; i < a->n; i++) { ca += (size_t)__builtin_popcountll(a->w[i]); cb += (size_t)__builtin_popcountll(b->w[i]); co += (size_t)__builtin_popcountll(a->w[i] | b->w[i]); }
    size_t dist = 0; for (int i = 0; i < k; i++) { int d = 0; for (int j = 0; j < i; j++) d |= pos[j] == pos[i]; dist += !d; if (!bitset_isset(a, pos[i]) && !bitset_isset(b, pos[i])) vh_viol("bitset:giant", "bit %zu is not set", pos[i]); static const size_t al[] = { (size_t)1 << 32, G31 }; for (int q = 0; q < 2; q++) { size_t o = pos[i] ^ al[q]; int mine = 0; for (int j = 0; j < k; j++) mine |= pos[j] == o; if (o < n && !mine && (bitset_isset(a, o) || bitset_isset(b, o))) vh_viol("bitset:giant", "bit %zu is set by setting %zu", o, pos[i]); } }
    if (co != dist) vh_viol("bitset:giant", "%zu bits set, expected %zu", co, dist);
    size_t all = a->n * 64; bitset_or(a, b); size_t c1 = 0, c2 = 0, c3 = 0; for (size_t i = 0; i < a->n; i++) c1 += (size_t)__builtin_popcountll(a->w[i]); if (c1 != dist) vh_viol("bitset:giant-or", "%zu bits, expected %zu", c1, dist); bitset_not(b); for (size_t i = 0; i < a->n; i++) c2 += (size_t)__builtin_popcountll(b->w[i]); if (c2 != all - cb) vh_viol("bitset:giant-not", "%zu bits, expected %zu", c2, all - cb); bitset_and(a, b); for (size_t i = 0; i < a->n; i++) c3 += (size_t)__builtin_popcountll(a->w[i]); if (c3 != dist - cb) vh_viol("bitset:giant-and", "%zu bits, expected %zu", c3, dist - cb);
    for (int i = 0; i < k; i++) { bitset_clr(a, pos[i]); if (bitset_isset(a, pos[i])) vh_viol("bitset:giant", "bit %zu stays set", pos[i]); } (void)ca; bitset_del(a); bitset_del(b);
}
#ifdef FLETCH
uint32_t fletcher32(uint16_t *data, size_t len);
static void fl(void)
{   /* the sums of a block are periodic: n copies of it, folded in closed form */
    size_t unit = 1u << 19, k = (G31 / unit) + vrn(3) + 1, n = unit * k + vrn(unit), i; uint16_t *u = malloc(n * 2); if (!u) vh_emitf("@X", "no memory"); for (i = 0; i < unit; i++) u[i] = (uint16_t)vr(); for (i = unit; i < n; i++) u[i] = u[i - unit]; vh_case("checksum of %zu words", n);
    uint64_t a = 0, b = 0; for (i = 0; i < n;) { size_t e = i + 4000 < n ? i + 4000 : n; for (; i < e; i++) { a += u[i]; b += a; } a %= 65535; b %= 65535; } if (!a) a = 65535; if (!b) b = 65535; uint32_t r = fletcher32(u, n), w = (uint32_t)(b << 16 | a); if (r != w) vh_viol("fletcher:giant", "checksum %08x instead of %08x", r, w); free(u);
}
#else
static void fl(void) {}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv); static const struct { const char *n; void (*f)(void); } T[] = { { "gstr", gs }, { "gtext", gs2 }, { "str", str }, { "hex", hx }, { "buf", bf }, { "vect", vc }, { "bits", bs }, { "fletch", fl } };
    for (uint64_t c = 0; c < vh_cases; c++) { if (!vh_begin(c)) continue; for (size_t i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(T[i].n, vh_mode)) { T[i].f(); vh_count("giants", 1); } vh_count("evals", 1); vh_sig(vh_h(vr(), c)); vh_sample("%s", vh_casebuf); if (vh_nviol) break; }
    return vh_end();
}

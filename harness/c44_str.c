/* C44: strcopy, strlcpy, strtrim, strcasecmp, strncasecmp against references, in exactly sized buffers */
#include "vh.h"
#include <ctype.h>
#include "utils/utils.h"
#include "utils/strutils.h"
extern size_t pl_strlcpy(char *, const char *, size_t); extern int pl_strcasecmp(const char *, const char *), pl_strncasecmp(const char *, const char *, size_t);
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static int refcmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static char byte(int k) { char c = k == 0 ? (char)("abAB zZ@[`{"[vrn(11)]) : k == 1 ? (char)(1 + vrn(255)) : k == 2 ? (char)("ab \t\n\v\f\r\xa0\x85"[vrn(10)]) : (char)("eE\xc9\xe9\xff\x80\x7f"[vrn(7)]); return c ? c : 'x'; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int k = (int)vrn(4); size_t n = vrp(20) ? vrn(4) : vrp(80) ? vrn(40) : vrsz(3000); char *s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = byte(k); s[n] = 0; if (k == 2 && vrp(40)) for (size_t i = 0, m = vrn(n + 1); i < m; i++) s[vrp(50) ? i : n - 1 - i] = ' '; s[n] = 0;
        size_t sz = vrp(70) ? (vrp(30) ? n : n + 1 + vrn(3)) - (vrp(30) ? vrn(n + 1) : 0) : vrsz(4000); vh_case("string of %zu (%s), size %zu", n, vh_hex(s, n < 60 ? n : 60), sz);
        { size_t z = sz ? sz : 1; char *d = malloc(z); memset(d, 0x5A, z); ssize_t r = strcopy(d, z, s); size_t w = n < z ? n : z - 1;
          if (n < z ? r != (ssize_t)n : r >= 0) vh_viol("strcopy:return", "copying %zu into %zu returned %zd", n, z, r); else if (memcmp(d, s, w) || d[w]) vh_viol("strcopy:bytes", "copying %zu into %zu gave %s", n, z, vh_hex(d, z < 40 ? z : 40)); if (n >= z) vh_count("truncated", 1); else vh_count("copied", 1); if (n == z || n + 1 == z) vh_count("edge", 1); free(d); }
        { char *d = malloc(sz ? sz : 1); char *q = sz ? d : 0; size_t r = pl_strlcpy(q, s, sz), w = n < sz ? n : sz ? sz - 1 : 0; if (r != n) vh_viol("strlcpy:return", "strlcpy of %zu into %zu returned %zu", n, sz, r); else if (sz && (memcmp(d, s, w) || d[w])) vh_viol("strlcpy:bytes", "strlcpy of %zu into %zu", n, sz); vh_count("strlcpy", 1); free(d); }
        { char *d = vh_dup(s, n + 1); size_t a = 0, b = n; while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--; char *r = strtrim(d); if (!r || r < d || r > d + n) vh_viol("strtrim:pointer", "result outside the string"); else if (strlen(r) != b - a || memcmp(r, s + a, b - a)) vh_viol("strtrim:bytes", "trimmed to %s, expected %s", vh_str(r, strlen(r)), vh_str(s + a, b - a)); vh_count("trims", 1); if (a) vh_count("leading", 1); if (b < n) vh_count("trailing", 1); if (a == b) vh_count("blank", 1); free(d); }
        { size_t m = vrp(70) ? n : vrn(n + 3); char *t = malloc(m + 1); for (size_t i = 0; i < m; i++) { char x = i < n ? s[i] : byte(k); if (x >= 'a' && x <= 'z' && vrp(40)) x = (char)(x - 32); else if (x >= 'A' && x <= 'Z' && vrp(40)) x = (char)(x + 32); if (vrp(2)) x = byte(k); if (vrp(2)) x = (char)(x ^ 32); t[i] = x ? x : 'q'; } t[m] = 0;
          int e = refcmp(s, t, (size_t)-1), r = pl_strcasecmp(s, t), r2 = pl_strcasecmp(t, s); if (sgn(r) != e || sgn(r2) != -e) vh_viol("strcasecmp:sign", "%s and %s compare as %d and %d, expected %d", vh_hex(s, n < 40 ? n : 40), vh_hex(t, m < 40 ? m : 40), r, r2, e); vh_count(e ? e < 0 ? "less" : "greater" : "equal", 1);
          size_t l = vrp(20) ? vrn(4) : vrn((n > m ? n : m) + 4); int nul = vrp(50); char *s2 = s, *t2 = t; if (nul && l <= n && l <= m) { s2 = vh_dup(s, l); t2 = vh_dup(t, l); } else nul = 0; e = refcmp(s, t, l); r = pl_strncasecmp(s2, t2, l); if (sgn(r) != e) vh_viol("strncasecmp:sign", "first %zu of %s and %s compare as %d, expected %d", l, vh_hex(s, n < 40 ? n : 40), vh_hex(t, m < 40 ? m : 40), r, e); vh_count("strncasecmp", 1); if (nul) { vh_count("unterminated", 1); free(s2); free(t2); } free(t); }
        if (c % 4000 == 0) {    /* every pair of single bytes, after a common prefix, both ways */
            char p1[3] = "x", p2[3] = "X"; for (int a = 0; a < 256 && !vh_nviol; a++) for (int b = 0; b < 256; b++) { p1[1] = (char)a; p2[1] = (char)b; int e = refcmp(p1, p2, 3), r = pl_strcasecmp(p1, p2), q = pl_strncasecmp(p1 + 1, p2 + 1, 1); if (sgn(r) != e) { vh_viol("strcasecmp:pair", "bytes %02x and %02x compare as %d, expected %d", a, b, r, e); break; } if (sgn(q) != e) { vh_viol("strncasecmp:pair", "bytes %02x and %02x compare as %d, expected %d", a, b, q, e); break; } }
            vh_count("byte_pairs", 65536);
        }
        uint64_t sig = vh_hb(sz, s, n); free(s); if (c == 0 && strtrim(0)) vh_viol("strtrim:null", "NULL trimmed to something"); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

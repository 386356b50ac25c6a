/* C27: hex parsing and hex dumps against references */
#include "vh.h"
#include "utils/strutils.h"
#include "utils/hexdump.h"
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char *R; static size_t rl;
static void rline(size_t off, const unsigned char *p, size_t n)
{
    char l[200]; int k = sprintf(l, "%016zx  ", off); for (size_t i = 0; i < 16; i++) { k += i < n ? sprintf(l + k, "%02x ", p[i]) : sprintf(l + k, "   "); if (i == 7 || i == 15) l[k++] = ' '; }
    l[k++] = ' '; l[k++] = '|'; for (size_t i = 0; i < n; i++) l[k++] = p[i] >= 32 && p[i] < 127 ? (char)p[i] : '.'; l[k++] = '|'; l[k++] = '\n'; memcpy(R + rl, l, (size_t)k); rl += (size_t)k;
}
static char *O; static size_t ol; static long failat, calls; static int failwith; static void *ctxw;
static int out(void *ctx, const char *b, size_t n) { if (ctx != ctxw) vh_viol("hex:ctx", "writer got another context"); calls++; if (failat && calls == failat) return failwith; if (ol + n > (4u << 20)) abort(); memcpy(O + ol, b, n); ol += n; return 0; }
static ssize_t cw(void *ck, const char *b, size_t n) { (void)ck; calls++; if (failat && calls >= failat) { errno = failwith ? failwith : EIO; return 0; } memcpy(O + ol, b, n); ol += n; return (ssize_t)n; }
static int cmp(const char *what) { if (ol == rl && !memcmp(O, R, rl)) return 1; size_t d = 0; while (d < ol && d < rl && O[d] == R[d]) d++; size_t s = d > 40 ? d - 40 : 0; vh_viol("hex:dump", "%s: %zu characters, expected %zu; differs at %zu: '%s' expected '%s'", what, ol, rl, d, vh_str((unsigned char *)O + s, ol - s > 100 ? 100 : ol - s), vh_str((unsigned char *)R + s, rl - s > 100 ? 100 : rl - s)); return 0; }
int main(int argc, char **argv)
{
    vh_init(argc, argv); R = malloc(4 << 20); O = malloc(4 << 20);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig;
        if (vrp(50)) {
            size_t n = vrp(80) ? vrn(14) : vrsz(1200); char *s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = (char)vpick("0123456789abcdefABCDEF"); if (n && vrp(40)) s[vrn(n)] = (char)(vrp(60) ? vpick("gG@`/: xXzZ-+") : 1 + vrn(255)); s[n] = 0;
            size_t need = (n + 1) / 2, cap = vrp(40) ? need : vrp(40) && need ? need - 1 : vrp(50) ? vrn(need + 1) : need + vrn(20); int bad = 0; unsigned char *w = calloc(need + 1, 1);
            for (size_t i = 0; i < n; i++) { int v = hx((unsigned char)s[i]); if (v < 0) bad = 1; else w[i / 2] |= (unsigned char)(i & 1 ? v : v << 4); }
            vh_case("parse '%s' into %zu", vh_str((unsigned char *)s, n > 300 ? 300 : n), cap); sig = vh_h(vh_hb(1, s, n), cap); unsigned char *o = malloc(cap ? cap : 1); memset(o, 0x5a, cap ? cap : 1);
            ssize_t r = str2hex(cap ? o : o + 1, cap, s);
            if (cap < need ? (bad ? r >= 0 : r != -ENOMEM) : bad ? r != -EINVAL : r != (ssize_t)need) vh_viol("hex:ret", "returned %zd (need %zu, room %zu, %s)", r, need, cap, bad ? "malformed" : "well-formed");
            else if (r > 0 && memcmp(o, w, need)) vh_viol("hex:bytes", "gave %s, expected %s", vh_hex(o, need), vh_hex(w, need));
            else if (r >= 0) for (size_t i = need; i < cap; i++) if (o[i] != 0x5a) { vh_viol("hex:excess", "byte %zu beyond the result changed", i); break; }
            vh_count(r >= 0 ? "parsed" : r == -ENOMEM ? "no_room" : "malformed", 1); if (cap == need) vh_count("exact", 1); free(o); free(w); free(s);
        } else {
            size_t n = vrp(50) ? vrn(40) : vrp(50) ? 16 * vrn(20) - (vrp(20) && 0) : vrsz(3000); unsigned char *b = malloc(n ? n : 1); vrbytes(b, n); if (vrp(30)) for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(32 + b[i] % 96);
            int ptr = vrp(40), fp = vrp(35), fail = vrp(25); vh_case("dump %zu bytes, %s%s", n, ptr ? "pointers" : "offsets", fp ? ", to a stream" : ""); sig = vh_h(vh_hb(2, b, n), (uint64_t)(ptr + 2 * fp)); rl = ol = 0; calls = 0; failat = 0;
            size_t lines = (n + 15) / 16;
            if (fp) {
                for (size_t i = 0; i < n; i += 16) rline(i, b + i, n - i > 16 ? 16 : n - i);
                if (fail && lines) failat = 1 + (long)vrn(lines), failwith = vrp(50) ? ENOSPC : 0;
                cookie_io_functions_t io = { 0, cw, 0, 0 }; FILE *f = fopencookie(0, "w", io); setvbuf(f, 0, _IONBF, 0);
                int r = fhexdump(f, b, n); if (failat) { if (r >= 0) vh_viol("hex:swallowed", "writing failed and fhexdump returned %d", r); else if (failwith && r != -failwith) vh_viol("hex:errno", "returned %d, expected %d", r, -failwith); vh_count("write_failures", 1); } else if (r) vh_viol("hex:fret", "fhexdump returned %d", r);
                failat = 0; fclose(f); if (!fail) cmp("fhexdump"); vh_count("streams", 1);
            } else {
                hex_dumper d; ctxw = vrp(50) ? &d : 0; hex_dump_init(&d, out, ctxw, ptr ? HEX_DUMP_PTR : HEX_DUMP_OFFSET); int parts = 1 + (int)vrn(3), failed = 0; size_t at = 0;
                if (fail && lines) { failat = 1 + (long)vrn(lines); failwith = -(int)(1 + vrn(200)); }
                for (int p = 0; p < parts && !failed; p++) {
                    size_t m = p == parts - 1 ? n - at : vrn(n - at + 1); if (vrp(40)) m = m / 16 * 16; if (p == parts - 1) m = n - at; unsigned char *q = vh_dup(b + at, m); long c0 = calls; size_t l = (m + 15) / 16; for (size_t i = 0; i < m; i += 16) if (!failat || c0 + (long)(i / 16) + 1 < failat) rline((ptr ? (size_t)q : 0) + i, q + i, m - i > 16 ? 16 : m - i);
                    int want = failat && c0 + (long)l >= failat && c0 < failat ? failwith : 0, r = hex_dump_write(&d, q, m); if (r != want) vh_viol("hex:wret", "hex_dump_write returned %d, expected %d", r, want); if (want) { failed = 1; if (calls != failat) vh_viol("hex:after-error", "%ld lines written after the failing one", calls - failat); vh_count("write_failures", 1); }
                    free(q); at += m; sig = vh_h(sig, m);
                }
                cmp("hex_dump_write"); if (hex_dump_close(&d)) vh_viol("hex:close", "hex_dump_close failed"); vh_count("dumps", 1);
            }
            vh_count("lines", lines); free(b);
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

/* C24: growable strings next to reference strings, for random histories */
#include "vh.h"
#include <ctype.h>
#include "utils/gstring.h"
#include "utils/strutils.h"
#define N 4
#define RM 200000
static gstr G[N]; static struct { unsigned char *s; size_t n; int live; } R[N]; static uint64_t sig;
static int ok(int i, const char *op)
{
    if (!R[i].live) return 1;
    gstr *g = &G[i];
    if (g->len != R[i].n || (gstr_len)(g) != R[i].n) { vh_viol("gstr:len", "after %s: length %zu, expected %zu", op, g->len, R[i].n); return 0; }
    if (g->cap <= g->len || (gstr_cap)(g) != g->cap) { vh_viol("gstr:cap", "after %s: capacity %zu, length %zu", op, g->cap, g->len); return 0; }
    if ((gstr_str)(g) != g->str || memcmp(g->str, R[i].s, R[i].n)) { vh_viol("gstr:text", "after %s: '%s', expected '%s'", op, vh_str((unsigned char *)g->str, R[i].n > 200 ? 200 : R[i].n), vh_str(R[i].s, R[i].n > 200 ? 200 : R[i].n)); return 0; }
    if (g->str[g->len]) { vh_viol("gstr:term", "after %s: not terminated", op); return 0; }
    size_t gl = 0; (void)gl; volatile char t = g->str[g->cap - 1]; (void)t;   /* the claimed capacity is really there */
    if (gstr_lastch(g) != (R[i].n ? (int)(char)R[i].s[R[i].n - 1] : 0) || (unsigned char)gstr_firstch(g) != (R[i].n ? R[i].s[0] : 0)) { vh_viol("gstr:ends", "after %s: first/last character wrong", op); return 0; }
    return 1;
}
static void radd(int i, const void *p, size_t n) { memmove(R[i].s + R[i].n, p, n); R[i].n += n; R[i].s[R[i].n] = 0; }
static size_t rnd(unsigned char *b, size_t max)
{
    size_t n = vrp(30) ? vrn(4) : vrp(60) ? vrn(20) : vrsz(max); int st = (int)vrn(3);
    for (size_t j = 0; j < n; j++) b[j] = (unsigned char)(st == 0 ? 'a' + vrn(4) : vrp(40) ? " \t\n\r\"'\v\f,;"[vrn(10)] : 1 + vrn(255)); b[n] = 0; return n;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); static unsigned char b[RM];
    for (int i = 0; i < N; i++) R[i].s = malloc(2 * RM);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int nops = 1 + (int)vrn(60); vh_case("ops:"); sig = 7; size_t big = vrp(10) ? 20000 : 200;
        for (int i = 0; i < N; i++) R[i].live = 0;
        for (int k = 0; k < nops && !vh_nviol; k++) {
            int i = (int)vrn(N), j = (int)vrn(N), op = (int)vrn(20); gstr *g = &G[i]; char nm[64];
            if (!R[i].live) {
                op = (int)vrn(3); size_t n;
                if (op == 0) { n = vrp(50) ? vrn(10) : vrp(50) ? (2u << vrn(9)) - 2 + vrn(3) : vrsz(3000); if (gstr_init(g, n) != g) vh_viol("gstr:ret", "gstr_init"); R[i].n = 0; sprintf(nm, "init(%zu)", n); if (g->cap <= n) vh_viol("gstr:initcap", "gstr_init(%zu) has capacity %zu", n, g->cap); }
                else if (op == 1) { n = rnd(b, big); int nul = vrp(5); char *s = vh_dup(b, n + 1); if (gstr_init_from(g, nul ? 0 : s) != g) vh_viol("gstr:ret", "gstr_init_from"); free(s); R[i].n = 0; if (!nul) radd(i, b, n); sprintf(nm, "init_from(%zu)", n); }
                else { if (!R[j].live) continue; if (gstr_dup(g, &G[j]) != g) vh_viol("gstr:ret", "gstr_dup"); R[i].n = 0; radd(i, R[j].s, R[j].n); sprintf(nm, "dup(%d)", j); if (g->str == G[j].str) vh_viol("gstr:dup", "duplicate shares its storage"); }
                R[i].live = 1; R[i].s[R[i].n] = 0;
            } else switch (op) {
            case 0: case 1: { if (!R[j].live || R[i].n + R[j].n > RM) continue; int self = i == j; size_t m = R[j].n; long r = gstr_append(g, &G[j]); radd(i, R[j].s, m); if (r != (long)R[i].n) vh_viol("gstr:ret", "gstr_append returned %ld, length %zu", r, R[i].n); sprintf(nm, "append(%d)", j); if (self) vh_count("self_append", 1); break; }
            case 2: case 3: { /* a C string, sometimes padded to exactly fill the storage */
                size_t n = rnd(b, big); if (vrp(30) && g->cap - g->len < 5000) { size_t want = g->cap - g->len + vrn(4); want = want > 2 ? want - 2 : 0; while (n < want) b[n++] = 'p'; n = want; b[n] = 0; vh_count("boundary", 1); }
                if (R[i].n + n > RM) continue; char *s = vh_dup(b, n + 1); size_t r = gstr_append_str(g, s); free(s); radd(i, b, n); if (r != R[i].n) vh_viol("gstr:ret", "gstr_append_str returned %zu", r); sprintf(nm, "append_str(%zu)", n); break; }
            case 4: { if (vrp(20)) { size_t r = gstr_append_str(g, 0); if (r != R[i].n || (size_t)gstr_append(g, 0) != R[i].n) vh_viol("gstr:ret", "append of nothing returned %zu", r); sprintf(nm, "append(null)"); break; }
                size_t off = vrn(R[i].n + 1); if (2 * R[i].n > RM) continue; size_t r = gstr_append_str(g, g->str + off); size_t m = R[i].n - off; radd(i, R[i].s + off, m); if (r != R[i].n) vh_viol("gstr:ret", "gstr_append_str of itself returned %zu", r); sprintf(nm, "append_str(self+%zu)", off); vh_count("self_append", 1); break; }
            case 5: case 6: { int m = vrp(70) ? 1 : (int)vrn(40); unsigned char ch = (unsigned char)(vrp(50) ? '\n' + 3 * vrp(50) : 1 + vrn(255)); if (vrp(20)) ch = "\"'"[vrn(2)]; for (int q = 0; q < m && !vh_nviol; q++) { int r = gstr_append_ch(g, (char)ch); radd(i, &ch, 1); if ((size_t)r != R[i].n) vh_viol("gstr:ret", "gstr_append_ch returned %d", r); ok(i, "append_ch"); } sprintf(nm, "append_ch(%d)x%d", ch, m); break; }
            case 7: { size_t n = vrp(70) ? vrn(R[i].n + 3) : vrsz(5000); int r = gstr_truncate(g, n); if (n < R[i].n) R[i].n = n; R[i].s[R[i].n] = 0; if ((size_t)r != R[i].n) vh_viol("gstr:ret", "gstr_truncate returned %d", r); sprintf(nm, "truncate(%zu)", n); break; }
            case 8: gstr_reset(g); R[i].n = 0; R[i].s[0] = 0; sprintf(nm, "reset"); break;
            case 9: { int l = R[i].n ? R[i].s[R[i].n - 1] : 0, l2 = R[i].n > 1 ? R[i].s[R[i].n - 2] : 0, r = gstr_chop(g), did = 0; (void)l2; if (l == '\n') R[i].n--, did = 1; if (R[i].n && R[i].s[R[i].n - 1] == '\r') R[i].n--, did = 1; R[i].s[R[i].n] = 0; if (did && !r) vh_viol("gstr:ret", "gstr_chop removed a line end and returned 0"); if (did) vh_count("chopped", 1); sprintf(nm, "chop"); break; }
            case 10: { char set[8]; size_t n = vrn(5); for (size_t q = 0; q < n; q++) set[q] = (char)(vrp(50) && R[i].n ? R[i].s[R[i].n - 1] : "abc\n\r\""[vrn(6)]); set[n] = 0; char *s = vh_dup(set, n + 1); int l = R[i].n ? (char)R[i].s[R[i].n - 1] : 0, r = gstr_chop_if(g, s); free(s); if (l && strchr(set, l)) { R[i].s[--R[i].n] = 0; vh_count("chopped", 1); if ((char)r != (char)l) vh_viol("gstr:ret", "gstr_chop_if returned %d, removed %d", r, l); } else if (!R[i].n && r) vh_viol("gstr:ret", "gstr_chop_if of an empty string returned %d", r); sprintf(nm, "chop_if"); break; }
            case 11: { if (!R[j].live || i == j) continue; if (gstr_copy(g, &G[j]) != g) vh_viol("gstr:ret", "gstr_copy"); R[i].n = 0; radd(i, R[j].s, R[j].n); sprintf(nm, "copy(%d)", j); break; }
            case 12: { if (gstr_trim(g) != g) vh_viol("gstr:ret", "gstr_trim"); size_t s = 0, e = R[i].n; while (s < e && isspace(R[i].s[s])) s++; while (e > s && isspace(R[i].s[e - 1])) e--; if (e - s != R[i].n) vh_count("trimmed", 1); memmove(R[i].s, R[i].s + s, e - s); R[i].n = e - s; R[i].s[R[i].n] = 0; sprintf(nm, "trim"); break; }
            case 13: { size_t n = R[i].n; int q = n ? R[i].s[0] : 0, want = q != '"' && q != '\'' ? 0 : n >= 2 && R[i].s[n - 1] == q ? q : -1, r = gstr_unquote(g); if (want < 0 ? r >= 0 : r != want) vh_viol("gstr:ret", "gstr_unquote returned %d, expected %d", r, want); if (want > 0) { memmove(R[i].s, R[i].s + 1, n - 2); R[i].n = n - 2; R[i].s[n - 2] = 0; vh_count("unquoted", 1); } sprintf(nm, "unquote"); break; }
            case 14: { if (!R[j].live) continue; int e = R[i].n == R[j].n && !memcmp(R[i].s, R[j].s, R[i].n); if (!!gstr_eq(g, &G[j]) != e) vh_viol("gstr:eq", "gstr_eq is %d, expected %d", !e, e); char *s = vh_dup(R[j].s, R[j].n + 1); if (!!gstr_eq_str(g, s) != e) vh_viol("gstr:eq", "gstr_eq_str is %d, expected %d", !e, e); if (R[j].n) { s[vrn(R[j].n)] ^= 1; } if (R[j].n && !!gstr_eq_str(g, s) != (R[i].n == strlen(s) && !strcmp((char *)R[i].s, s))) vh_viol("gstr:eq", "gstr_eq_str wrong for a changed string"); free(s); sprintf(nm, "eq(%d)", j); vh_count("compared", 1); break; }
            case 15: case 16: { /* read every line of a text */
                size_t n = rnd(b, big < 3000 ? big : 3000), p = 0; char tok[6] = "\n"; if (vrp(40)) { size_t m = 1 + vrn(4); for (size_t q = 0; q < m; q++) tok[q] = (char)(vrp(40) && n ? b[vrn(n)] : "\n\r,;"[vrn(4)]); tok[m] = 0; }
                if (vrp(30)) { size_t L = g->cap - 2 + vrn(4); if (L < RM / 2) { for (n = 0; n < L; n++) b[n] = 'q'; b[n++] = (unsigned char)tok[0]; b[n] = 0; vh_count("boundary", 1); } }
                if (!n) { b[0] = 'z'; b[1] = 0; n = 1; }
                unsigned char *t = vh_dup(b, n); FILE *f = fmemopen(t, n, "r"); if (!f) abort(); int lines = 0;
                while (p < n && !vh_nviol) { size_t q = p; while (q < n && !strchr(tok, (char)t[q])) q++; int r = gstr_readline(g, f, tok); R[i].n = 0; radd(i, t + p, q - p); if (r != (int)(q - p)) vh_viol("gstr:readline", "returned %d for a line of %zu characters", r, q - p); ok(i, "readline"); p = q + 1; lines++; vh_count("lines", 1); if (vrp(5)) break; }
                if (p >= n && !vh_nviol) { int r = gstr_readline(g, f, tok); if (r) vh_viol("gstr:readline", "returned %d at end of file", r); R[i].n = 0; R[i].s[0] = 0; }
                fclose(f); free(t); sprintf(nm, "readline x%d of %zu", lines, n); break; }
            case 17: { /* a descriptor that cannot be read */ FILE *f = fopen("/dev/null", "w"); int r = f ? gstr_readline(g, f, "\n") : -1; if (r != -1) vh_viol("gstr:readerr", "a read error returned %d", r); if (f) fclose(f); R[i].n = 0; R[i].s[0] = 0; if (g->len) gstr_reset(g); sprintf(nm, "readerror"); vh_count("read_errors", 1); break; }
            case 18: { char *s = gstr_finalize(g); if (!s || strlen(s) != R[i].n || memcmp(s, R[i].s, R[i].n)) vh_viol("gstr:finalize", "returned another string"); if (g->str) vh_viol("gstr:finalize", "kept the storage"); free(s); gstr_fini(g); R[i].live = 0; sprintf(nm, "finalize"); vh_count("finalized", 1); break; }
            default: gstr_fini(g); if (g->str || g->len || g->cap) vh_viol("gstr:fini", "storage not released"); R[i].live = 0; sprintf(nm, "fini"); break;
            }
            vh_case_add(" %d.%s", i, nm); sig = vh_hb(vh_h(sig, (uint64_t)i), nm, strlen(nm)); vh_count("ops", 1);
            for (int q = 0; q < N && !vh_nviol; q++) ok(q, nm);
        }
        for (int i = 0; i < N; i++) if (R[i].live) gstr_fini(&G[i]);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    for (int i = 0; i < N; i++) free(R[i].s);
    return vh_end();
}

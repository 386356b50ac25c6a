/* C23: escape/unescape/unquote against references */
#include "vh.h"
#include "utils/strutils.h"
#include "utils/gstring.h"
static int od(int c) { return c >= '0' && c <= '7'; }
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static size_t ref_unesc(const unsigned char *s, size_t n, int e, unsigned char *o)
{
    size_t k = 0, i = 0;
    while (i < n) {
        int c = s[i++]; if (c != e) { o[k++] = (unsigned char)c; continue; }
        if (i == n) { o[k++] = (unsigned char)e; break; }
        c = s[i++];
        static const char L[] = "abeEfnrtv"; static const unsigned char V[] = "\a\b\033\033\f\n\r\t\v"; const char *p = strchr(L, c);
        if (p) o[k++] = V[p - L];
        else if (c == '0') { int v = 0; for (int j = 0; j < 3 && i < n && od(s[i]); j++) v = v * 8 + s[i++] - '0'; o[k++] = (unsigned char)v; }
        else if (c >= '1' && c <= '9') { int v = c - '0'; for (int j = 0; j < 2 && i < n && s[i] >= '0' && s[i] <= '9'; j++) v = v * 10 + s[i++] - '0'; o[k++] = (unsigned char)v; }
        else if (c == 'x') { int v = 0, j; for (j = 0; j < 2 && i < n && hx(s[i]) >= 0; j++) v = v * 16 + hx(s[i++]); if (j) o[k++] = (unsigned char)v; else { o[k++] = (unsigned char)e; o[k++] = 'x'; } }
        else o[k++] = (unsigned char)c;
    }
    return k;
}
static int chk(gstr *g, const unsigned char *w, size_t n, const char *what)
{
    if (g->len != n || memcmp(g->str, w, n)) { vh_viol("esc:result", "%s gave '%s', expected '%s'", what, vh_str((unsigned char *)g->str, g->len > 300 ? 300 : g->len), vh_str(w, n)); return 0; }
    if (g->cap <= g->len || g->str[g->len]) { vh_viol("esc:term", "%s: not terminated in its storage (len %zu cap %zu)", what, g->len, g->cap); return 0; }
    return 1;
}
/* a gstr whose storage is exactly sized */
static void mk(gstr *g, const unsigned char *s, size_t n) { g->str = vh_dup(s, n + 1); g->len = n; g->cap = n + 1; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    static unsigned char w[4096], x[4096];
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig; int kind = (int)vrn(3);
        if (kind == 0) {
            /* round trip */
            int e = vrp(50) ? '\\' : vrp(50) ? "%~^!"[vrn(4)] : 128 + (int)vrn(128); size_t n = vrp(70) ? vrn(16) : vrsz(600), m = 0; unsigned char *in = malloc(n + 1), set[260]; unsigned char is[256] = {0};
            int bias = (int)vrn(4);
            for (size_t i = 0; i < n; i++) in[i] = (unsigned char)(bias == 0 ? 1 + vrn(255) : bias == 1 ? 1 + vrn(31) : vrp(50) ? vpick("\a\b\f\n\r\t\v abn0178xf") : vrp(20) ? e : 1 + vrn(255));
            in[n] = 0; uint64_t ns = vrp(30) ? vrn(255) : vrn(12);
            for (uint64_t i = 0; i < ns; i++) { int ch = (int)(vrp(50) && n ? in[vrn(n)] : vrp(50) ? (uint64_t)vpick("\a\b\f\n\r\t\vanx0") : 1 + vrn(255)); if (ch != e && !is[ch]) { is[ch] = 1; set[m++] = (unsigned char)ch; } }
            set[m] = 0; vh_case("esc=%d set='%s' in='%s'", e, vh_str(set, m), vh_str(in, n)); sig = vh_h(vh_hb(vh_hb(1, in, n), set, m), (uint64_t)e);
            gstr g; mk(&g, in, n); char *st = vh_dup(set, m + 1);
            gstr *r = gstr_escape(&g, st, vrp(50) ? e : (int)(signed char)e); if (r != &g) vh_viol("esc:ret", "gstr_escape returned another string");
            /* nothing that had to be escaped appears raw: scan tokens */
            size_t i = 0, raw = 0, toks = 0; while (i < g.len) { int ch = (unsigned char)g.str[i++]; toks++; if (ch == e) { if (i >= g.len) { vh_viol("esc:dangling", "escaped form ends with the escape character"); break; } ch = (unsigned char)g.str[i++]; if (ch == '0') while (i < g.len && od(g.str[i]) && raw < 3) i++, raw++; raw = 0; } else if (is[ch]) { vh_viol("esc:raw", "byte %d is raw in '%s'", ch, vh_str((unsigned char *)g.str, g.len)); break; } }
            if (toks != n && !vh_nviol) vh_viol("esc:tokens", "%zu characters became %zu", n, toks);
            if (strlen(g.str) != g.len || g.cap <= g.len) vh_viol("esc:term", "escaped form len %zu cap %zu strlen %zu", g.len, g.cap, strlen(g.str));
            size_t k = ref_unesc((unsigned char *)g.str, g.len, e, w); if (k != n || memcmp(w, in, n)) vh_viol("esc:form", "escaped form '%s' does not denote the input", vh_str((unsigned char *)g.str, g.len));
            if (vrp(50)) { gstr h; mk(&h, (unsigned char *)g.str, g.len); gstr_fini(&g); g = h; }
            if (gstr_unescape(&g, e) != &g) vh_viol("esc:ret", "gstr_unescape returned another string"); chk(&g, in, n, "round trip");
            gstr_fini(&g); free(st); free(in); vh_count("roundtrips", 1); if (m) vh_count("with_set", 1);
        } else if (kind == 1) {
            int e = vrp(80) ? '\\' : vrp(50) ? '%' : 200; size_t n = vrp(80) ? vrn(14) : vrsz(400); unsigned char *in = malloc(n + 1); int pe = vrp(50) ? 40 : 10;
            for (size_t i = 0; i < n; i++) in[i] = (unsigned char)(vrp(pe) ? e : vrp(80) ? vpick("abeEfnrtvxX0123456789aAfFgG7789") : 1 + vrn(255)); in[n] = 0;
            vh_case("unescape esc=%d in='%s'", e, vh_str(in, n)); sig = vh_h(vh_hb(2, in, n), (uint64_t)e);
            size_t k = ref_unesc(in, n, e, x); gstr g; mk(&g, in, n); gstr_unescape(&g, vrp(50) ? e : (int)(signed char)e); chk(&g, x, k, "unescape"); gstr_fini(&g); free(in); vh_count("unescaped", 1); if (k < n) vh_count("decoded", 1);
        } else {
            size_t n = vrp(80) ? vrn(8) : vrsz(100); unsigned char *in = malloc(n + 1);
            for (size_t i = 0; i < n; i++) in[i] = (unsigned char)(vrp(40) ? "\"'"[vrn(2)] : vrp(80) ? 'a' + vrn(3) : 1 + vrn(255)); in[n] = 0; if (n > 1 && vrp(50)) in[n - 1] = in[0];
            vh_case("unquote '%s'", vh_str(in, n)); sig = vh_hb(3, in, n); int q = n && (in[0] == '"' || in[0] == '\'') ? in[0] : 0, want = !q ? 0 : n >= 2 && in[n - 1] == q ? q : -1;
            char *b = vh_dup(in, n + 1), *p = (char *)1; int r = strunquote(b, &p), give = 1;
            if (want < 0 ? r >= 0 : r != want) vh_viol("esc:unquote-ret", "strunquote returned %d, expected %d", r, want);
            else if (want > 0) { if (p != b + 1 || strlen(p) != n - 2 || memcmp(p, in + 1, n - 2)) vh_viol("esc:unquote", "strunquote gave another string"); vh_count("unquoted", 1); }
            else { if (memcmp(b, in, n + 1)) vh_viol("esc:unquote-mod", "strunquote changed the string though it removed nothing"); vh_count("not_quoted", 1); }
            (void)give; memcpy(b, in, n + 1); r = strunquote(b, 0); if (want < 0 ? r >= 0 : r != want) vh_viol("esc:unquote-ret", "strunquote without a result pointer returned %d, expected %d", r, want);
            gstr g; mk(&g, in, n); r = gstr_unquote(&g); if (want < 0 ? r >= 0 : r != want) vh_viol("esc:gunquote-ret", "gstr_unquote returned %d, expected %d", r, want); else if (want > 0) chk(&g, in + 1, n - 2, "gstr_unquote"); else chk(&g, in, n, "gstr_unquote");
            gstr_fini(&g); free(b); free(in);
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

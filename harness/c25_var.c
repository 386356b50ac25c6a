/* C25: variable expansion against a reference expander */
#include "vh.h"
#include "utils/gstring.h"
static struct { char *k, *v; } M[40]; static int nm; static uint64_t lookups; static char asked[64][2100]; static int nasked; static void *ck;
static const char *find(void *cookie, const char *key)
{
    lookups++; if (cookie != ck) vh_viol("var:cookie", "lookup got another cookie"); if (nasked < 64) snprintf(asked[nasked++], 2100, "%s", key);
    for (int i = 0; i < nm; i++) if (!strcmp(M[i].k, key)) return M[i].v;
    return 0;
}
static int uc(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("$#@?*!<>%^&-_|:.", c)); }
static char *O; static size_t ol;
static void put(const char *s, size_t n) { memcpy(O + ol, s, n); ol += n; O[ol] = 0; }
static char wasked[64][2100]; static int nw;
static int ref(const char *s)
{
    ol = 0; nw = 0; O[0] = 0; int prev = 0;
    while (*s) {
        if (*s != '$') { put(s, 1); prev = *s++; continue; }
        if (prev == '\\') { ol--; put("$", 1); prev = '$'; s++; continue; }
        s++; const char *k = s; size_t kl; prev = '$';
        if (*s == '{') { const char *e = strchr(s, '}'); if (!e) return -EINVAL; k = s + 1; kl = (size_t)(e - k); s = e + 1; }
        else { while (uc((unsigned char)*s)) s++; kl = (size_t)(s - k); }
        if (!kl) return -EINVAL;
        if (nw < 64) snprintf(wasked[nw++], 2100, "%.*s", (int)kl, k);
        int i; for (i = 0; i < nm; i++) if (strlen(M[i].k) == kl && !memcmp(M[i].k, k, kl)) break; if (i == nm) return -ENOENT;
        put(M[i].v, strlen(M[i].v));
    }
    return 0;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); O = malloc(4 << 20); static char t[20000];
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        nm = (int)vrn(8); int small = vrp(80);
        for (int i = 0; i < nm; i++) {
            size_t n = 1 + (small ? vrn(4) : vrsz(1500)), m = vrp(20) ? 0 : small ? vrn(10) : vrsz(3000); char *k = malloc(n + 1), *v = malloc(m + 1); int any = vrp(30);
            for (size_t j = 0; j < n; j++) { int ch; do ch = any && vrp(50) ? 1 + (int)vrn(255) : vrp(70) ? "abAZ09"[vrn(6)] : "$#@?*!<>%^&-_|:."[vrn(16)]; while (ch == '}'); k[j] = (char)ch; } k[n] = 0; if (k[0] == '{') k[0] = 'x';
            for (size_t j = 0; j < m; j++) v[j] = vrp(30) ? "${}\\"[vrn(4)] : (char)(1 + vrn(255)); v[m] = 0; M[i].k = k; M[i].v = v;
        }
        size_t n = 0; int parts = 1 + (int)vrn(small ? 8 : 30), good = vrp(60);
        for (int p = 0; p < parts && n < 15000; p++) {
            int kind = (int)vrn(7);
            if (kind <= 1) { for (size_t q = vrn(6); q; q--) t[n++] = (char)(vrp(50) ? " /ab1~"[vrn(6)] : 1 + vrn(255)); if (good) for (size_t q = 0; q < n; q++) if (t[q] == '$' && 0) t[q] = 'd'; }
            else if (kind == 2 && nm) { int i = (int)vrn((uint64_t)nm); int plain = 1; for (char *x = M[i].k; *x; x++) if (!uc((unsigned char)*x)) plain = 0; if (plain) n += (size_t)sprintf(t + n, "$%s", M[i].k); else n += (size_t)sprintf(t + n, "${%s}", M[i].k); if (good || vrp(50)) t[n++] = " /,~"[vrn(4)]; }
            else if (kind == 3 && nm) n += (size_t)sprintf(t + n, "${%s}", M[vrn((uint64_t)nm)].k);
            else if (kind == 4) n += (size_t)sprintf(t + n, "%s", vrp(50) ? "\\$" : vrp(50) ? "\\\\$" : "\\$\\$a");
            else if (kind == 5 && !good) n += (size_t)sprintf(t + n, "%s", (const char *[]){"$", "${", "${}", "$(", "$$", "${a", "$nope ", "${no such}", "$ ", "\\"}[vrn(10)]);
            else for (size_t q = vrn(3); q; q--) t[n++] = "${}\\a "[vrn(6)];
        }
        t[n] = 0; if (vrp(40)) { /* raw noise over a small alphabet */ n = vrn(14); for (size_t q = 0; q < n; q++) t[q] = "${}\\aAb."[vrn(8)]; t[n] = 0; }
        n = strlen(t); vh_case("'%s' with %d vars, first '%s'='%s'", vh_str((unsigned char *)t, n > 400 ? 400 : n), nm, nm ? M[0].k : "", nm ? M[0].v : ""); uint64_t sig = vh_hb(5, t, n);
        int want = ref(t); gstr g; g.str = vh_dup(t, n + 1); g.len = n; g.cap = n + 1; ck = vrp(50) ? &g : 0; nasked = 0;
        int r = gstr_varexp(&g, find, ck);
        if (r != want) vh_viol("var:ret", "returned %d, expected %d", r, want);
        else if (!r && (g.len != ol || memcmp(g.str, O, ol))) vh_viol("var:text", "'%s', expected '%s'", vh_str((unsigned char *)g.str, g.len > 300 ? 300 : g.len), vh_str((unsigned char *)O, ol > 300 ? 300 : ol));
        else if (r && (g.len || g.str[0])) vh_viol("var:partial", "failed with %d and left '%s'", r, vh_str((unsigned char *)g.str, g.len > 300 ? 300 : g.len));
        else if (g.cap <= g.len || g.str[g.len]) vh_viol("var:term", "len %zu cap %zu", g.len, g.cap);
        if (nasked != nw) vh_viol("var:lookups", "%d names looked up, expected %d", nasked, nw); else for (int i = 0; i < nw; i++) if (strcmp(asked[i], wasked[i])) vh_viol("var:name", "looked up '%s', expected '%s'", asked[i], wasked[i]);
        gstr_append_str(&g, "tail"); if (g.len != (r ? 0 : ol) + 4) vh_viol("var:append", "string unusable afterwards");
        gstr_fini(&g); for (int i = 0; i < nm; i++) { free(M[i].k); free(M[i].v); }
        vh_count(r == 0 ? "expanded" : r == -ENOENT ? "unknown" : "malformed", 1); if (!r && nw) vh_count("substituted", (uint64_t)nw);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    free(O); return vh_end();
}

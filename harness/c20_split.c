/* C20: field splitting against reference splitters */
#include "vh.h"
#include "utils/utils.h"
#include "utils/strutils.h"
#define MAXF 400
static unsigned char toks[MAXF][700]; static size_t tlen[MAXF]; static int nt;
static int isd(const char *set, int c) { for (; *set; set++) if ((unsigned char)*set == c) return 1; return 0; }
static int ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void add(const unsigned char *p, size_t n) { memcpy(toks[nt], p, n); tlen[nt++] = n; }
/* split on every delimiter (or run of them), a last empty field is not a field */
static void ref(const unsigned char *s, size_t n, const char *set, int sqz)
{
    nt = 0; if (sqz) { while (n && ws(s[n - 1])) n--; while (n && ws(s[0])) s++, n--; }
    size_t b = 0, i = 0;
    if (sqz) { size_t k = 0; for (i = 0; i < n; i++) if (!isd(set, s[i])) k++; if (!k) return; }
    for (i = 0; i < n;) {
        if (!isd(set, s[i])) { i++; continue; }
        add(s + b, i - b); i++; if (sqz) while (i < n && isd(set, s[i])) i++; b = i;
    }
    if (b < n) add(s + b, n - b);
}
/* quote-aware; quotes vanish, \ before the closing quote character inside quotes stands for it */
static int refcsv(const unsigned char *s, const char *set)
{
    unsigned char f[700]; size_t k = 0; int q = 0, prev = 0; nt = 0;
    for (; *s; prev = *s, s++) {
        int c = *s, isq = c == '"' || c == '\'';
        if (isq && !q) q = c; else if (isq && q == c) { if (prev == '\\') f[k - 1] = (unsigned char)c; else q = 0; }
        else if (!isq && !q && isd(set, c)) { add(f, k); k = 0; } else f[k++] = (unsigned char)c;
    }
    if (q) return -EINVAL; if (k) add(f, k); return nt;
}
static void judge(const char *what, char **v, int n, unsigned char *buf, size_t len)
{
    if (n != nt) { vh_viol("split:count", "%s: %d fields, expected %d", what, n, nt); return; }
    unsigned char *prev = buf;
    for (int i = 0; i < n; i++) {
        unsigned char *t = (unsigned char *)v[i];
        if (t < buf || t > buf + len) { vh_viol("split:outside", "%s: field %d is not in the buffer", what, i); return; }
        if (strlen((char *)t) != tlen[i] || memcmp(t, toks[i], tlen[i])) { vh_viol("split:field", "%s: field %d is '%s', expected '%s'", what, i, vh_str(t, strlen((char *)t)), vh_str(toks[i], tlen[i])); return; }
        if (i && t < prev) { vh_viol("split:overlap", "%s: field %d overlaps the one before", what, i); return; }
        prev = t + tlen[i] + 1; if (prev > buf + len + 1) { vh_viol("split:outside", "%s: field %d ends outside", what, i); return; }
    }
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int csv = vrp(45), sqz = (int)vrn(2); size_t n = vrp(70) ? vrn(24) : vrsz(300); unsigned char *in = malloc(n + 1); char set[40]; int ns = vrp(60) ? 1 : (int)vrn(5); static const char S[] = ",;: \t.\n|\\x\x80\xff\xe9/\"";
        for (int i = 0; i < ns; i++) set[i] = vrp(70) ? S[vrn(sizeof S - 1)] : (char)(1 + vrn(255)); if (vrp(3)) for (ns = 0; ns < 39; ns++) set[ns] = (char)(1 + vrn(255)); set[ns] = 0;
        for (size_t i = 0; i < n; i++) { in[i] = (unsigned char)(vrp(35) && ns ? set[vrn((uint64_t)ns)] : vrp(csv ? 35 : 8) ? "\"'\\"[vrn(3)] : vrp(10) ? " \t\n\v\f\r"[vrn(6)] : vrp(60) ? 'a' + vrn(4) : 1 + vrn(255)); } in[n] = 0;
        char *tset = vh_dups(set); int nosep = csv && vrp(10); const char *us = nosep ? "," : set; if (nosep) for (size_t i = 0; i < n; i++) if (vrp(20)) in[i] = ',';
        vh_case("%s%s in='%s' delims='%s'", csv ? "csv" : "split", sqz ? " squeeze" : "", vh_str(in, n), vh_str(us, strlen(us))); uint64_t sig = vh_hb(vh_hb((uint64_t)csv * 2 + (uint64_t)sqz, in, n), us, strlen(us));
        int want; if (csv) want = refcsv(in, us); else { ref(in, n, us, sqz); want = nt; }
        unsigned char *b = vh_dup(in, n + 1); int cap = want < 0 ? nt + 1 : vrp(40) ? want : vrp(50) && want ? want - 1 : want + (int)vrn(4); if (vrp(5)) cap = 0;
        char **v = malloc(sizeof *v * (size_t)(cap ? cap : 1)); int r;
        if (csv) r = strsplit_csv(cap ? v : v + 1, cap, (char *)b, nosep ? 0 : tset); else r = strsplit_quick(cap ? v : v + 1, cap, (char *)b, tset, sqz);
        if (want < 0) { if (r >= 0) vh_viol("split:unterminated", "unterminated quote accepted (%d)", r); vh_count("unterminated", 1); }
        else if (cap < want) { if (r >= 0) vh_viol("split:nospace", "%d fields into an array of %d returned %d", want, cap, r); vh_count("no_space", 1); if (csv && r != -ENOSPC) vh_viol("split:nospace-code", "returned %d", r); }
        else { if (r < 0) vh_viol("split:refused", "returned %d for %d fields in an array of %d", r, want, cap); else judge(csv ? "csv" : "fixed", v, r, b, n); vh_count(csv ? "csv" : "fixed", 1); if (want == cap) vh_count("exact", 1); }
        free(b); free(v);
        if (!csv) { b = vh_dup(in, n + 1); int k = -1; v = strsplit(&k, (char *)b, tset, sqz); if (!v) vh_viol("split:null", "no array"); else judge("dynamic", v, k, b, n); free(v); free(b); vh_count("dynamic", 1); if (k >= 16) vh_count("grown", 1); }
        free(in); free(tset);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

/* C21: command-line splitting against a reference; re-quoted words split to themselves */
#include "vh.h"
#include "utils/strutils.h"
static unsigned char W[600][700]; static size_t wl[600];
static int ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int ref(const unsigned char *s)
{
    int n = 0, in = 0; size_t k = 0;
    for (; *s; s++) {
        if (ws(*s)) { if (in) { wl[n++] = k; in = 0; } continue; }
        if (!in) in = 1, k = 0;
        if (*s == '"' || *s == '\'') { const unsigned char *e = (const unsigned char *)strchr((const char *)s + 1, *s); if (!e) return -1; memcpy(W[n] + k, s + 1, (size_t)(e - s - 1)); k += (size_t)(e - s - 1); s = e; }
        else W[n][k++] = *s;
    }
    if (in) wl[n++] = k; return n;
}
static int judge(char **v, int n, unsigned char *b, size_t len, const char *what)
{
    unsigned char *prev = b;
    for (int i = 0; i < n; i++) {
        unsigned char *t = (unsigned char *)v[i]; if (t < prev || t > b + len) { vh_viol("args:place", "%s: word %d overlaps or is outside the buffer", what, i); return 0; }
        if (strlen((char *)t) != wl[i] || memcmp(t, W[i], wl[i])) { vh_viol("args:word", "%s: word %d is '%s', expected '%s'", what, i, vh_str(t, strlen((char *)t)), vh_str(W[i], wl[i])); return 0; }
        prev = t + wl[i] + 1; if (prev > b + len + 1) { vh_viol("args:place", "%s: word %d not terminated inside", what, i); return 0; }
    }
    return 1;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = vrp(70) ? vrn(20) : vrsz(300); unsigned char *in = malloc(n + 1); int q = vrp(60) ? 15 : 3, w = vrp(30) ? 5 : 30;
        for (size_t i = 0; i < n; i++) in[i] = (unsigned char)(vrp(q) ? "\"'"[vrn(2)] : vrp(w) ? " \t\n \v\f\r"[vrn(7)] : vrp(70) ? 'a' + vrn(3) : 1 + vrn(255)); in[n] = 0;
        vh_case("in='%s'", vh_str(in, n)); int want = ref(in); uint64_t sig = vh_hb(3, in, n);
        int cap = want < 0 ? (int)n + 1 : vrp(50) ? want : vrp(50) && want ? want - 1 : want + (int)vrn(3); char **v = malloc(sizeof *v * (size_t)(cap ? cap : 1)); unsigned char *b = vh_dup(in, n + 1);
        int r = strsplitargs(cap ? v : v + 1, (size_t)cap, (char *)b);
        if (want < 0) { if (r != -EINVAL) vh_viol("args:unterminated", "returned %d", r); vh_count("unterminated", 1); }
        else if (cap < want) { if (r != -ENOSPC) vh_viol("args:nospace", "%d words into %d entries returned %d", want, cap, r); vh_count("no_space", 1); }
        else if (r != want) vh_viol("args:count", "%d words, expected %d", r, want);
        else if (judge(v, r, b, n, "split")) {
            /* quote each word with a quote character it does not contain */
            size_t tot = 1; for (int i = 0; i < r; i++) tot += wl[i] + 8; unsigned char *x = malloc(tot); size_t k = 0; int ok = 1;
            for (int i = 0; i < r; i++) { int qc = !memchr(W[i], '"', wl[i]) && (vrp(50) || memchr(W[i], '\'', wl[i])) ? '"' : !memchr(W[i], '\'', wl[i]) ? '\'' : 0; if (!qc) { ok = 0; break; } x[k++] = (unsigned char)qc; memcpy(x + k, W[i], wl[i]); k += wl[i]; x[k++] = (unsigned char)qc; for (uint64_t j = 1 + vrn(3); j; j--) x[k++] = ' '; }
            if (ok) { x[k] = 0; vh_case_add(" requoted='%s'", vh_str(x, k)); unsigned char *y = vh_dup(x, k + 1); int r2 = strsplitargs(v, (size_t)cap, (char *)y); if (r2 != r) vh_viol("args:requote", "%d words after re-quoting %d", r2, r); else judge(v, r2, y, k, "requoted"); free(y); vh_count("requoted", 1); }
            free(x); vh_count("split", 1); if (cap == want) vh_count("exact", 1); vh_count("words", (uint64_t)r);
        }
        free(v); free(b); free(in);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

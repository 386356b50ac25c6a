/* C26: base64 against a reference coder; exactly sized buffers, every chunking */
#include "vh.h"
#include "utils/base64.h"
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t renc(const unsigned char *s, size_t n, char *o)
{
    size_t k = 0, q = 0;
    for (size_t i = 0; i < n; i += 3) {
        unsigned v = (unsigned)s[i] << 16 | (i + 1 < n ? (unsigned)s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        o[k++] = A[v >> 18]; o[k++] = A[v >> 12 & 63]; o[k++] = i + 1 < n ? A[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? A[v & 63] : '=';
        if (i + 2 < n && ++q == 18) o[k++] = '\n', q = 0;
    }
    o[k++] = '\n'; o[k] = 0; return k;
}
static size_t rdec(const unsigned char *s, size_t n, unsigned char *o)
{
    size_t k = 0; unsigned acc = 0; int bits = 0;
    for (size_t i = 0; i < n; i++) { const char *p = s[i] ? strchr(A, s[i]) : 0; if (!p) continue; acc = acc << 6 | (unsigned)(p - A); bits += 6; if (bits >= 8) { bits -= 8; o[k++] = (unsigned char)(acc >> bits); acc &= (1u << bits) - 1; } }
    return k;
}
static int same(const void *a, size_t n, const void *b, size_t m, const char *key, const char *what)
{
    if (n == m && !memcmp(a, b, n)) return 1;
    vh_viol(key, "%s: %zu bytes '%s', expected %zu '%s'", what, n, vh_str(a, n > 120 ? 120 : n), m, vh_str(b, m > 120 ? 120 : m)); return 0;
}
static void decode_all(const unsigned char *t, size_t n, const unsigned char *w, size_t wn, uint64_t *sig)
{
    /* whole, exactly sized; one short; larger */
    char *src = vh_dup(t, n); unsigned char *o = malloc(wn ? wn : 1);
    int r = base64_decode_buf(wn ? o : o + 1, (int)wn, src, (int)n); if (r < 0) vh_viol("b64:dec-refused", "%zu chars into exactly %zu bytes: %d", n, wn, r); else same(o, (size_t)r, w, wn, "b64:dec", "decode"); free(o);
    if (wn) { size_t c = vrp(50) ? wn - 1 : vrn(wn); o = malloc(c ? c : 1); r = base64_decode_buf(c ? o : o + 1, (int)c, src, (int)n); if (r >= 0) vh_viol("b64:dec-small", "%zu decoded bytes into %zu returned %d", wn, c, r); free(o); vh_count("dec_small", 1); }
    /* in chunks, each with its own exactly sized input and output */
    base64_decode_state st; base64_decode_init(&st); unsigned char *all = malloc(wn + 1); size_t k = 0, i = 0, valid = 0, done = 0;
    while (i < n && !vh_nviol) {
        size_t m = vrp(50) ? vrn(4) : vrn(20); if (m > n - i) m = n - i; for (size_t j = 0; j < m; j++) if (t[i + j] && strchr(A, t[i + j])) valid++;
        size_t can = valid * 6 / 8 - done; char *cs = vh_dup(t + i, m); o = malloc(can ? can : 1); r = base64_decode_block(&st, cs, (int)m, (char *)(can ? o : o + 1)); free(cs);
        if (r != (int)can) vh_viol("b64:dec-chunk", "chunk of %zu chars at %zu gave %d bytes, expected %zu", m, i, r, can); else { memcpy(all + k, o, can); k += can; done += can; }
        free(o); i += m; *sig = vh_h(*sig, m); vh_count("dec_chunks", 1);
    }
    if (!vh_nviol) same(all, k, w, wn, "b64:dec-chunks", "chunked decode"); free(all); free(src);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); static char E[40000]; static unsigned char D[40000];
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig;
        if (vrp(65)) {
            size_t n = vrp(50) ? vrn(10) : vrp(50) ? 54 * (1 + vrn(4)) - 4 + vrn(8) : vrsz(8000); unsigned char *s = malloc(n ? n : 1); if (vrp(80)) vrbytes(s, n); else memset(s, vrp(50) ? 0xff : 0, n);
            vh_case("encode %zu bytes %s", n, vh_hex(s, n > 100 ? 100 : n)); sig = vh_hb(1, s, n); size_t e = renc(s, n, E);
            /* one call: exact, ample, too small */
            size_t cap = vrp(60) ? e + 1 : e + 1 + vrn(2 * n + 10); if (vrp(30) && cap < 2 * n) cap = 2 * n; char *o = malloc(cap); int r = base64_encode_buf(o, (int)cap, n ? s : s + 1, (int)n);
            if (r < 0) vh_viol("b64:enc-refused", "%zu bytes into %zu refused (%d), %zu needed", n, cap, r, e + 1); else if (same(o, (size_t)r, E, e, "b64:enc", "encode") && o[r]) vh_viol("b64:enc-term", "not terminated");
            free(o);
            cap = vrp(60) ? e : vrn(e + 1); o = malloc(cap ? cap : 1); r = base64_encode_buf(cap ? o : o + 1, (int)cap, s, (int)n); if (r >= 0) vh_viol("b64:enc-small", "%zu bytes into %zu returned %d, %zu needed", n, cap, r, e + 1); free(o); vh_count("enc_small", 1);
            /* chunks */
            base64_encode_state st; base64_encode_init(&st); size_t i = 0, k = 0; char *all = malloc(e + 16);
            while (i < n && !vh_nviol) {
                size_t m = vrp(60) ? vrn(5) : vrn(200); if (m > n - i) m = n - i; unsigned char *cs = vh_dup(s + i, m);
                /* what the reference has after i+m bytes, without the incomplete group's tail */
                size_t tot = (i + m) / 3 * 4 + (i + m) / 54 + ((i + m) % 3), can = tot - k; o = malloc(can ? can : 1);
                r = base64_encode_block(&st, (char *)cs, (int)m, can ? o : o + 1); free(cs); if (r != (int)can) vh_viol("b64:enc-chunk", "chunk of %zu at %zu gave %d chars, expected %zu", m, i, r, can); else { memcpy(all + k, o, can); k += can; } free(o); i += m; sig = vh_h(sig, m); vh_count("enc_chunks", 1);
            }
            if (!vh_nviol) { size_t can = e - k; o = malloc(can + 1); r = base64_encode_finish(&st, o); if (r != (int)can) vh_viol("b64:enc-finish", "finish gave %d chars, expected %zu", r, can); else { memcpy(all + k, o, can); same(all, k + can, E, e, "b64:enc-chunks", "chunked encode"); } free(o); }
            free(all); if (!vh_nviol) decode_all((unsigned char *)E, e, s, n, &sig); free(s); vh_count("roundtrips", 1); if (n > 54) vh_count("multiline", 1);
        } else {
            size_t n = vrp(60) ? vrn(16) : vrsz(3000); unsigned char *t = malloc(n ? n : 1); int bad = vrp(50) ? 20 : 60; for (size_t i = 0; i < n; i++) t[i] = (unsigned char)(!vrp(bad) ? A[vrn(64)] : vrp(50) ? vpick("={|}~\n\r -_*,.:;@[`") : vrn(256));
            vh_case("decode '%s'", vh_str(t, n > 200 ? 200 : n)); sig = vh_hb(2, t, n); size_t k = rdec(t, n, D); decode_all(t, n, D, k, &sig); free(t); vh_count("garbage", 1);
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

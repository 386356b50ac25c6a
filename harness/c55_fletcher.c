/* C55: the Fletcher checksum against its definition (running sums modulo 65535 that are never written as 0) */
#include "vh.h"
uint32_t fletcher32(uint16_t *data, size_t len);
static uint32_t ref(const uint16_t *p, size_t n) { uint64_t a = 0, b = 0; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65535; b = (b + a) % 65535; } if (!a) a = 65535; if (!b) b = 65535; return (uint32_t)(b << 16 | a); }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    static const struct { const char *s; uint32_t v; } K[] = { { "abcde", 0xF04FC729 }, { "abcdef", 0x56502D2A }, { "abcdefgh", 0xEBE19591 } };
    for (int i = 0; i < 3; i++) { uint16_t w[4] = { 0 }; memcpy(w, K[i].s, strlen(K[i].s)); vh_case("known answer %s", K[i].s); uint32_t r = fletcher32(w, (strlen(K[i].s) + 1) / 2), q = ref(w, (strlen(K[i].s) + 1) / 2); if (r != K[i].v || q != r) vh_viol("fletcher:vector", "%08x (reference %08x) instead of %08x", r, q, K[i].v); vh_count("vectors", 1); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = vrp(30) ? c % 1500 : vrp(40) ? 360 * vrn(6) + vrn(5) - (vrp(30) ? 2 : 0) : vrp(5) ? vrn(200000) : vrn(3000); if (n > 1u << 20) n = 0; int kind = (int)vrn(5);
        uint16_t *p = malloc(n * 2), *s = malloc(n * 2 + 2); for (size_t i = 0; i < n; i++) p[i] = kind == 0 ? 0xffff : kind == 1 ? 0 : kind == 2 ? (uint16_t)(0xfffe + vrn(2)) : kind == 3 ? (uint16_t)(vrp(90) ? 0xffff : vr()) : (uint16_t)vr(); if (n) memcpy(s, p, n * 2);
        vh_case("%zu words of kind %d", n, kind); uint32_t r = fletcher32(p, n), w = ref(s, n); if (r != w) vh_viol("fletcher:value", "checksum %08x instead of %08x", r, w); if (n && memcmp(s, p, n * 2)) vh_viol("fletcher:data", "the data is changed");
        if (n) { size_t i = vrn(n); uint16_t o = p[i], d = (uint16_t)(o ^ (1u << vrn(16))); if ((uint32_t)o + d != 65535 || (o && d)) { p[i] = d; if (fletcher32(p, n) == r) vh_viol("fletcher:detect", "a flipped bit in word %zu is not detected", i); vh_count("flips", 1); } if (n > 1 && n <= 65534) { p[i] = o; size_t j = (i + 1) % n; if (p[i] % 65535 != p[j] % 65535) { o = p[i]; p[i] = p[j]; p[j] = o; if (fletcher32(p, n) == r) vh_viol("fletcher:order", "exchanged words are not detected"); vh_count("swaps", 1); } } }
        free(p); free(s); vh_count("evals", 1); vh_count("sums", 1); vh_sig(vh_h(vh_h(n, (uint64_t)kind), w)); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

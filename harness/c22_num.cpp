/* C22: sizes and numbers against 128-bit arithmetic */
#include "vh.h"
#include "utils/strutils.h"
typedef unsigned __int128 u128;
static int ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1; }
/* 0 ok, else negative errno; *end index */
static int refnum(const char *s, int base, uint64_t *v, size_t *end)
{
    size_t i = 0; int neg = 0; u128 a = 0; *v = 0; if (base < 0 || base == 1 || base > 36) return -EINVAL;
    while (ws((unsigned char)s[i])) i++;
    if (s[i] == '-') neg = 1, i++; else if (s[i] == '+') i++;
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { i += 2; base = 16; } else if (base == 0) base = s[i] == '0' ? 8 : 10;
    for (; s[i]; i++) { int d = dig((unsigned char)s[i]); *end = i; if (d < 0) return -EINVAL; if (d >= base) break; a = a * (unsigned)base + (unsigned)d; if (a >> 64) return -ERANGE; }
    *end = i; *v = neg ? (uint64_t)(0 - (uint64_t)a) : (uint64_t)a; return 0;
}
static int refsize(const char *s, int base, uint64_t *out)
{
    uint64_t v; size_t e = 0; int r = refnum(s, base, &v, &e); if (r) return r; u128 m = 1; const char *p = s + e, *u = "KMGTPE";
    if (*p) {
        const char *k = strchr(u, *p == 'k' ? 'K' : *p); 
        if (k) { for (const char *q = u; q <= k; q++) m *= 1024; p++; if (*p == 'B') p++; else if (*p == 'b') { p++; m /= 8; } } else if (*p == 'B') p++; else if (*p == ' ') { p++; if (*p == 'B') p++; } else return -EINVAL;
        if (*p && !ws((unsigned char)*p)) return -EINVAL;
    }
    u128 x = (u128)v * m; if (x >> 64) return -ERANGE; *out = (uint64_t)x; return 0;
}
static size_t render(char *o, u128 v, int base) { char t[140]; int n = 0; do { int d = (int)(v % (unsigned)base); t[n++] = (char)(d < 10 ? '0' + d : (vrp(50) ? 'a' : 'A') + d - 10); v /= (unsigned)base; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; o[n] = 0; return (size_t)n; }
template <class T> static void ti(const char *nm, const char *s, int base)
{
    uint64_t v; int r = refsize(s, base, &v); auto g = putils::strtoi<T>(std::string(s), base); bool fits = r == 0 && (uint64_t)(T)v == v;
    if (g.second != fits) vh_viol("strtoi:result", "strtoi<%s>('%s',%d) says %d, expected %d", nm, s, base, g.second, fits); else if (fits && g.first != (T)v) vh_viol("strtoi:value", "strtoi<%s>('%s',%d)=%lld", nm, s, base, (long long)g.first); vh_count("strtoi", 1);
}
static void numcase(void)
{
    static const int BS[] = { 0, 0, 0, 10, 16, 8, 2, 36, 3, 35 }; int base = vrp(80) ? BS[vrn(10)] : vrp(90) ? (int)(2 + vrn(35)) : (int)vrr(-3, 40); char b[400]; size_t k = 0; int rb = base >= 2 && base <= 36 ? base : 10;
    while (vrp(12)) b[k++] = " \t\n\v\f\r"[vrn(6)]; if (vrp(12)) b[k++] = "+-"[vrn(2)];
    if (base == 0) { int h = (int)vrn(3); if (h == 0) { b[k++] = '0'; b[k++] = "xX"[vrn(2)]; rb = 16; } else if (h == 1) { b[k++] = '0'; rb = 8; } } else if (base == 16 && vrp(50)) { b[k++] = '0'; b[k++] = 'x'; }
    u128 m64 = (u128)1 << 64, v; static const int SH[] = { 0, 10, 20, 30, 40, 50, 60, 7, 17, 27, 37, 47, 57, 64 }; int sh = SH[vrn(14)];
    switch (vrn(6)) { case 0: v = vrn(2000); break; case 1: v = vrsz(~0ull); break; case 2: v = m64 - 1 + (u128)vrn(5) - 2; break; case 3: v = (m64 >> sh) + (u128)vrn(5) - 2; if ((v >> 127)) v = 0; break; case 4: v = m64 * (1 + vrn(40)) + vr(); break; default: v = m64 / (1 + vrn(5000)) + (u128)vrn(3); }
    while (vrp(6)) b[k++] = '0'; k += render(b + k, v, rb); static const char *SF[] = { "k", "K", "M", "G", "T", "P", "E", "kB", "Mb", "GB", "Tb", "Pb", "EB", "Eb", "B", "b", " ", "kb", "kBx", "BB", "kk", " B", "M b", "m", "g", "e", "K ", "kB ", "EbB" };
    if (vrp(60)) { const char *f = SF[vrn(29)]; strcpy(b + k, f); k += strlen(f); } if (vrp(10)) b[k++] = (char)(1 + vrn(255)); if (vrp(5)) k = vrn(k + 1); b[k] = 0; if (vrp(5)) b[vrn(k + 1)] = (char)(vrp(80) ? 1 + vrn(255) : 0);
    char *s = vh_dups(b); uint64_t want = 0, got = 0x5555, v2; size_t e = 0; vh_case("num '%s' base %d", vh_str(b, strlen(b)), base); int r = refnum(s, base, &v2, &e); const char *end = 0; int g = strtou64(s, &end, base, &got);
    if (g != r) vh_viol("strtou64:result", "returned %d, expected %d", g, r);
    else if (r == 0 && got != v2) vh_viol("strtou64:value", "%llu, expected %llu", (unsigned long long)got, (unsigned long long)v2);
    else if (end && (base >= 2 || base == 0) && base <= 36 && end != s + e) vh_viol("strtou64:end", "stopped at %ld, expected %zu", (long)(end - s), e);
    r = refsize(s, base, &want); got = 0x77; g = strtosize(s, base, &got); if (g != r) vh_viol("strtosize:result", "returned %d, expected %d", g, r); else if (r == 0 && got != want) vh_viol("strtosize:value", "%llu, expected %llu", (unsigned long long)got, (unsigned long long)want); else if (r && got != 0x77) vh_viol("strtosize:stored", "failed but stored a value");
    vh_count(r == 0 ? "sizes" : r == -ERANGE ? "overflows" : "malformed", 1);
    switch (vrn(8)) { case 0: ti<int8_t>("i8", s, base); break; case 1: ti<uint8_t>("u8", s, base); break; case 2: ti<int>("int", s, base); break; case 3: ti<unsigned>("uint", s, base); break; case 4: ti<long long>("ll", s, base); break; case 5: ti<unsigned long>("ul", s, base); break; case 6: ti<short>("short", s, base); break; default: ti<uint16_t>("u16", s, base); }
    vh_sig(vh_hb((uint64_t)base, b, strlen(b))); free(s);
}
static void human(void)
{
    uint64_t v; switch (vrn(5)) { case 0: v = vrn(3000); break; case 1: v = 1ull << vrn(64); break; case 2: { int s = (int)(10 * vrn(7)); v = (1 + vrn(1100)) << s; v += vrn(5) - 2; break; } case 3: v = ~0ull - vrsz(1ull << 60); break; default: v = vrsz(~0ull); }
    char full[64]; memset(full, 1, sizeof full); vh_case("humanize %llu", (unsigned long long)v); if (humanize_size(full, sizeof full, v) != full) vh_viol("human:ret", "does not return the buffer");
    size_t L = strnlen(full, sizeof full); if (L > 24) { vh_viol("human:long", "'%.60s'", full); return; }
    unsigned long long n = 0; char *p = full; if (*p < '0' || *p > '9') { vh_viol("human:form", "'%s'", full); return; } n = strtoull(p, &p, 10); u128 hund = (u128)n * 100; if (*p == '.') { if (p[1] < '0' || p[1] > '9' || p[2] < '0' || p[2] > '9') { vh_viol("human:form", "'%s'", full); return; } hund += (unsigned)((p[1] - '0') * 10 + p[2] - '0'); p += 3; }
    static const char *U[] = { " bytes", " kB", " MB", " GB", " TB", " PB", " EB" }; int u = -1; for (int i = 0; i < 7; i++) if (!strcmp(p, U[i])) u = i; if (u < 0) { vh_viol("human:unit", "'%s'", full); return; }
    int wu = 0; while (wu < 6 && v >> (10 * (wu + 1))) wu++; if (u != wu) vh_viol("human:unit", "%llu shown as '%s'", (unsigned long long)v, full);
    u128 one = (u128)1 << (10 * u), t = (u128)v * 100, sh = hund * one, d = t > sh ? t - sh : sh - t; if (d > one || (u == 0 && d)) vh_viol("human:value", "%llu shown as '%s'", (unsigned long long)v, full);
    size_t z = vrn(L + 4); char *x = (char *)malloc(z ? z : 1); memset(x, 0x7e, z ? z : 1); humanize_size(z ? x : x + 1, z, v); if (z) { size_t w = L < z ? L : z - 1; if (memcmp(x, full, w) || x[w]) vh_viol("human:short-buffer", "size %zu gives '%s' of '%s'", z, vh_str(x, z), full); } free(x);
    vh_count("humanized", 1); vh_sig(vh_h(v, 99));
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        if (c % 4 == 3) human(); else numcase();
        vh_count("evals", 1); if (c < 4) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

/* C30: IPv4 addresses and masks against a reference parser */
#include "vh.h"
#include "utils/parse-ip.h"
/* 1..3 digits per octet, exactly four octets */
static int raddr(const char *s, size_t n, uint32_t *v)
{
    uint32_t a = 0; size_t i = 0; for (int o = 0; o < 4; o++) { size_t d = 0; unsigned x = 0; while (i < n && s[i] >= '0' && s[i] <= '9' && d < 4) x = x * 10 + (unsigned)(s[i++] - '0'), d++; if (!d || d > 3 || x > 255) return 0; a = a << 8 | x; if (o < 3) { if (i >= n || s[i] != '.') return 0; i++; } } if (i != n) return 0; *v = a; return 1;
}
static int rmask(const char *s, size_t n, uint32_t *m)
{
    if (memchr(s, '.', n)) return raddr(s, n, m); size_t i = 0; unsigned x = 0; if (!n) return 0; for (; i < n; i++) { if (s[i] < '0' || s[i] > '9') return 0; x = x * 10 + (unsigned)(s[i] - '0'); if (x > 32) return 0; } *m = x ? ~0u << (32 - x) : 0; return 1;
}
static void chk_cidr(uint32_t m)
{
    uint32_t k = 77, want = 0; int ok = (~m & (~m + 1)) == 0; for (uint32_t q = m; q & 0x80000000u; q <<= 1) want++; int r = mask_to_cidr4(m, &k); if (!!r != ok) vh_viol("ip:cidr-ret", "mask %08x: returned %d", m, r); else if (ok && k != want) vh_viol("ip:cidr", "mask %08x: %u, expected %u", m, k, want); vh_count(ok ? "cidr_ok" : "cidr_refused", 1);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig; char t[200]; int kind = (int)vrn(4);
        if (kind == 0) {
            uint32_t a = (uint32_t)vr(); if (vrp(30)) a = 0; if (vrp(30)) a |= 0xffu << 8 * vrn(4); char w[20]; int n = sprintf(w, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); size_t cap = vrp(50) ? (size_t)n + 1 : 1 + vrn(20); vh_case("print %08x into %zu", a, cap); sig = vh_h(vh_h(1, a), cap); char *o = malloc(cap); if (str_ipv4(o, cap, a) != o) vh_viol("ip:print-ret", "returned another buffer"); else if (cap > (size_t)n ? strcmp(o, w) : !memchr(o, 0, cap) || strncmp(o, w, cap - 1)) vh_viol("ip:print", "'%.20s', expected '%s'", o, w);
            else if (cap > (size_t)n) { uint32_t b = ~a; if (!parse_ipv4(&b, o) || b != a) vh_viol("ip:roundtrip", "'%s' parses to %08x", o, b); } free(o); vh_count("printed", 1); int sh = (int)vrn(33); uint32_t m = sh ? ~0u << (32 - sh) : 0; chk_cidr(m); chk_cidr(m ^ 1u << vrn(32)); chk_cidr((uint32_t)vr());
        } else {
            int n = 0, oct = vrp(85) ? 4 : 1 + (int)vrn(6), dirty = vrp(45); for (int i = 0; i < oct; i++) { if (i) n += sprintf(t + n, "."); unsigned x = vrp(90) ? (unsigned)vrn(256) : vrp(50) ? 255 + (unsigned)vrn(3) : (unsigned)vrn(3000); n += sprintf(t + n, vrp(90) ? "%u" : vrp(50) ? "%03u" : "%04u", x); }
            int slash = kind >= 2;
            if (slash) { t[n++] = '/'; t[n] = 0; if (vrp(60)) { if (vrp(85)) n += sprintf(t + n, vrp(90) ? "%u" : "%03u", (unsigned)vrn(vrp(80) ? 33 : 300)); else n += sprintf(t + n, "%s", (const char *[]){"4294967296", "4294967320", "18446744073709551616", "18446744073709551640", "", "0000000000000000000000000000000000008", "00000000000000000000000000000024x", "33", "-1", "+8", "8 ", " 8", "0x8"}[vrn(13)]); } else { uint32_t m = vrp(70) ? (uint32_t)(0xffffffff00000000ull >> vrn(33)) : (uint32_t)vr(); n += sprintf(t + n, "%u.%u.%u.%u", m >> 24, m >> 16 & 255, m >> 8 & 255, m & 255); } }
            if (dirty) for (uint64_t m = 1 + vrn(2); m; m--) switch (vrn(6)) { case 0: t[vrn((uint64_t)n)] = (char)vpick("./ -+xa0123456789"); break; case 1: t[n++] = (char)vpick("./ 0129"); t[n] = 0; break; case 2: memmove(t + 1, t, (size_t)n + 1); t[0] = (char)vpick("./ 0129"); n++; break; case 3: { size_t p = vrn((uint64_t)n); memmove(t + p, t + p + 1, (size_t)n - p); n--; if (!n) { strcpy(t, "."); n = 1; } break; } case 4: { size_t p = vrn((uint64_t)n); memmove(t + p + 1, t + p, (size_t)n - p + 1); n++; break; } default: t[vrn((uint64_t)n)] = (char)(1 + vrn(255)); }
            n = (int)strlen(t); vh_case("parse '%s'", vh_str((unsigned char *)t, (size_t)n)); sig = vh_hb(2, t, (size_t)n); char *s = vh_dup(t, (size_t)n + 1), *sl = strchr(t, '/'); uint32_t *a = malloc(4), *m = malloc(4), wa = 0, wm = ~0u; *a = *m = 0x12345678;
            if (!sl) { int w = raddr(t, (size_t)n, &wa), r = parse_ipv4(a, s); if (!!r != w) vh_viol("ip:ret", "parse_ipv4 returned %d for %s text", r, w ? "good" : "bad"); else if (w && *a != wa) vh_viol("ip:addr", "%08x, expected %08x", *a, wa); vh_count(w ? "addr_ok" : "addr_refused", 1); *a = 1; }
            else if (parse_ipv4(a, s)) vh_viol("ip:ret", "parse_ipv4 accepted an address with a mask");
            int w = raddr(t, sl ? (size_t)(sl - t) : (size_t)n, &wa) && (!sl || rmask(sl + 1, strlen(sl + 1), &wm)); if (w && sl && strlen(sl + 1) > 15) w = -1;   /* absurdly padded prefix: either way */
            int r = parse_ipv4_and_mask(a, m, s); if (w >= 0 ? !!r != w : 0) vh_viol("ip:mask-ret", "parse_ipv4_and_mask returned %d for %s text", r, w ? "good" : "bad"); else if (r && (*a != wa || *m != wm)) vh_viol("ip:mask", "%08x/%08x, expected %08x/%08x", *a, *m, wa, wm);
            vh_count(w ? "mask_ok" : "mask_refused", 1); if (w && sl) vh_count("with_mask", 1); free(a); free(m); free(s);
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    /* this shard's share of all masks (thorough: every 32-bit value) */
    if (vh_thorough && !vh_nviol && vh_only == ~0ull) for (uint64_t m = vh_shard; m < 1ull << 32 && !vh_nviol; m += 8) { uint32_t k; int ok = (~(uint32_t)m & (~(uint32_t)m + 1)) == 0; if (!!mask_to_cidr4((uint32_t)m, &k) != ok) vh_viol("ip:cidr-ret", "mask %08x", (uint32_t)m); }
    return vh_end();
}

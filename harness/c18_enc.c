/* C18: fixed-width encoding against arithmetic on the value */
#include "vh.h"
#include <arpa/inet.h>
#include "fast/encdec.h"
#include "fast/byteorder.h"
#include "utils/typeutils.h"
int be_macros(uint64_t v, char *why, size_t n);
static uint64_t byt(uint64_t v, int i) { uint64_t d = 1; while (i--) d *= 256; return (v / d) % 256; }   /* i-th least significant */
static uint64_t rev(uint64_t v, int w) { uint64_t r = 0; for (int i = 0; i < w; i++) r = r * 256 + byt(v, i); return r; }
static uint64_t anyv(void)
{
    switch (vrn(8)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << vrn(64); case 3: return ~(1ull << vrn(64)); case 4: return vrsz(~0ull); case 5: return 0xffull << (8 * vrn(8)); case 6: return 0x8080808080808080ull; default: return vr(); }
}
static void one(int w, int be, uint64_t v, int f64)
{
    int pre = (int)vrn(9), post = (int)vrn(9); uint8_t *m = malloc((size_t)(pre + w + post)), pat = (uint8_t)vr(); memset(m, pat, (size_t)(pre + w + post));
    uint8_t *b = m + pre, *r = 0; double d; memcpy(&d, &v, 8); if (w < 8) v &= (1ull << (8 * w)) - 1;
    vh_case("width %d %s%s value %llx align %d", w, be ? "BE" : "LE", f64 ? " float64" : "", (unsigned long long)v, (int)((uintptr_t)b & 7));
    if (f64) r = be ? enc_BE_float64(b, d) : enc_LE_float64(b, d);
    else if (w == 2) r = be ? enc_BE_u16(b, (uint16_t)v) : enc_LE_u16(b, (uint16_t)v);
    else if (w == 4) r = be ? enc_BE_u32(b, (uint32_t)v) : enc_LE_u32(b, (uint32_t)v);
    else r = be ? enc_BE_u64(b, v) : enc_LE_u64(b, v);
    if (r != b + w) vh_viol("enc:next", "returned offset %ld, width %d", (long)(r - b), w);
    for (int i = 0; i < w; i++) if (b[be ? w - 1 - i : i] != byt(v, i)) { vh_viol("enc:bytes", "value %llx encoded as %s", (unsigned long long)v, vh_hex(b, (size_t)w)); break; }
    for (int i = 0; i < pre + w + post; i++) if ((i < pre || i >= pre + w) && m[i] != pat) { vh_viol("enc:outside", "byte %d of a field at %d..%d changed", i, pre, pre + w); break; }
    uint8_t *x = vh_dup(b, (size_t)w); uint64_t g = 0;
    if (f64) { double e = be ? dec_BE_float64(x) : dec_LE_float64(x); memcpy(&g, &e, 8); if (d != d) { if (e == e) vh_viol("dec:nan", "NaN decoded as %g", e); g = v; } }
    else if (w == 2) g = be ? dec_BE_u16(x) : dec_LE_u16(x); else if (w == 4) g = be ? dec_BE_u32(x) : dec_LE_u32(x); else g = be ? dec_BE_u64(x) : dec_LE_u64(x);
    if (g != v) vh_viol("dec:value", "%llx decoded as %llx", (unsigned long long)v, (unsigned long long)g);
    /* decoding of arbitrary bytes at any alignment */
    free(x); free(m); vh_count("fields", 1);
}
#define EQ(nm, e, want) do { uint64_t g_ = (uint64_t)(e), w_ = (uint64_t)(want); if (g_ != w_) vh_viol("swap:" nm, #e " of %llx is %llx, expected %llx", (unsigned long long)v, (unsigned long long)g_, (unsigned long long)w_); } while (0)
static void swaps(uint64_t v)
{
    volatile uint16_t h = (uint16_t)v; volatile uint32_t i = (uint32_t)v; volatile uint64_t l = v; vh_case("swaps of %llx", (unsigned long long)v);
    uint64_t r2 = rev(h, 2), r4 = rev(i, 4), r8 = rev(l, 8);
    EQ("swab16", __swab16(h), r2); EQ("swab32", __swab32(i), r4); EQ("swab64", __swab64(l), r8); EQ("c16", __constant_swab16(h), r2); EQ("c32", __constant_swab32(i), r4); EQ("c64", __constant_swab64(l), r8); EQ("f16", __fswab16(h), r2); EQ("f32", __fswab32(i), r4); EQ("f64", __fswab64(l), r8);
    EQ("be16", __cpu_to_be16(h), r2); EQ("be32", __cpu_to_be32(i), r4); EQ("be64", __cpu_to_be64(l), r8); EQ("16be", __be16_to_cpu(h), r2); EQ("32be", __be32_to_cpu(i), r4); EQ("64be", __be64_to_cpu(l), r8);
    EQ("le16", __cpu_to_le16(h), h); EQ("le32", __cpu_to_le32(i), i); EQ("le64", __cpu_to_le64(l), l); EQ("16le", __le16_to_cpu(h), h); EQ("32le", __le32_to_cpu(i), i); EQ("64le", __le64_to_cpu(l), l);
    EQ("chtons", __constant_htons(h), htons(h)); EQ("chtonl", __constant_htonl(i), htonl(i)); EQ("chtonll", __constant_htonll(l), r8); EQ("cntohs", __constant_ntohs(h), ntohs(h)); EQ("cntohl", __constant_ntohl(i), ntohl(i)); EQ("cntohll", __constant_ntohll(l), r8);
    EQ("htonll", htonll(l), r8); EQ("ntohll", ntohll(l), r8); EQ("inv", __swab64(__swab64(l)), l); EQ("inv32", __swab32(__swab32(i)), i); EQ("inv16", __swab16(__swab16(h)), h);
    /* folded at compile time */
    EQ("k16", __swab16(0x1234), 0x3412); EQ("k32", __swab32(0x12345678), 0x78563412u); EQ("k64", __swab64(0x0123456789abcdefull), 0xefcdab8967452301ull); EQ("k64h", __swab64(0xff00000000000001ull), 0x01000000000000ffull); EQ("k32h", __swab32(0xff000001u), 0x010000ffu);
    char why[100]; if (!be_macros(v, why, sizeof why)) vh_viol("swap:big-endian", "%s", why);
    vh_count("swaps", 1);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t v = c < 64 ? 1ull << c : anyv(), s = vh_h(v, c % 8);
        switch (c % 8) { case 0: one(2, 0, v, 0); break; case 1: one(2, 1, v, 0); break; case 2: one(4, 0, v, 0); break; case 3: one(4, 1, v, 0); break; case 4: one(8, 0, v, vrp(30)); break; case 5: one(8, 1, v, vrp(30)); break; default: swaps(v); }
        vh_count("evals", 1); vh_sig(s); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    if (vh_shard == 0 && vh_only == ~0ull && !vh_nviol) for (uint64_t v = 0; v < 65536 && !vh_nviol; v++) { one(2, 0, v, 0); one(2, 1, v, 0); vh_count("exhaustive16", 1); }
    return vh_end();
}

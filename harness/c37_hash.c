/* C37: hash functions against independent definitions, on exactly sized buffers at every alignment */
#include "vh.h"
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#include "utils/xxhash.h"
#include "refhash.h"
#define YP 709607u
static u32 r_yor(const u8 *p, size_t n, u32 seed)
{   /* the definition is the library's own: 16 of every 32 bytes, then 8, 8 and 4 byte pieces and an odd byte */
    u32 a = seed ? seed : 2166136261u, b = a;
    for (; n >= 32; n -= 32, p += 32) { for (int j = 0; j < 2; j++) { u64 k1 = ld(p + 8 * j, 8), k2 = ld(p + 8 * j + 4, 8); u32 *h = j ? &b : &a; *h = (u32)((*h ^ ((k1 << 5 | k1 >> 27) ^ k2)) * YP); } }
    if (n & 16) { a = (a ^ (u32)ld(p, 4)) * YP; b = (b ^ (u32)ld(p + 4, 4)) * YP; p += 16; } if (n & 8) { a = (a ^ (u32)ld(p, 4)) * YP; b = (b ^ (u32)ld(p + 2, 4)) * YP; p += 8; } if (n & 4) { a = (a ^ (u32)ld(p, 4)) * YP; p += 4; } if (n & 1) a = (a ^ *p) * YP;
    a = (a ^ (b << 5 | b >> 27)) * YP; return a ^ a >> 16;
}
#define EQ(key, got, want) do { u64 g_ = (got), w_ = (want); if (g_ != w_) vh_viol(key, "%zu bytes at offset %zu, seed %016llx: %016llx, expected %016llx", n, off, (unsigned long long)s, (unsigned long long)g_, (unsigned long long)w_); } while (0)
static void all(const u8 *p, const u8 *ref, size_t n, u64 s, size_t off)
{
    u32 s3 = (u32)s; u32 h4[4]; u64 h2[2]; u64 key[2] = { s, vh_mix(s) }; uint_128_t r;
    EQ("hash:murmur32", murmur3_hash_32(p, n, s3), r_m32(ref, n, s3));
    r_m86(ref, n, s3, h4); r = murmur3_hash_128(p, n, s3); EQ("hash:murmur128", r.v[0], (u64)h4[0] << 32 | h4[1]); EQ("hash:murmur128", r.v[1], (u64)h4[2] << 32 | h4[3]);
    r_m64(ref, n, s3, h2); r = murmur3_hash64_128(p, n, s3); EQ("hash:murmur64_128", r.v[0], h2[0]); EQ("hash:murmur64_128", r.v[1], h2[1]);
    EQ("hash:siphash", siphash24(p, n, key), r_sip(ref, n, key)); EQ("hash:xxh32", XXH32(p, n, s3), r_x32(ref, n, s3)); EQ("hash:xxh64", XXH64(p, n, s), r_x64(ref, n, s));
    u64 f = r_fast(ref, n, s); EQ("hash:fasthash64", fasthash64(p, n, s), f); f = r_fast(ref, n, s3); EQ("hash:fasthash32", fasthash32(p, n, s3), (u32)(f - (f >> 32)));
    EQ("hash:fnv32", fnv_hash(p, n, s3), r_fnv(ref, n)); EQ("hash:fnv64", fnv_hash64(p, n, s), r_fnv64(ref, n)); EQ("hash:hsieh", hsieh_hash(p, n, s3), r_hsieh(ref, n, s3));
    EQ("hash:city64", city_hash(p, n, s), s ? c16(r_city(ref, n) - CK2, s) : r_city(ref, n));
    if (s || key[1]) { r_city128s(ref, n, s, key[1], h2); r = city_hash_128(p, n, (uint_128_t){ { s, key[1] } }); EQ("hash:city128seed", r.v[0], h2[0]); EQ("hash:city128seed", r.v[1], h2[1]); }
    r_city128(ref, n, h2); r = city_hash_128(p, n, (uint_128_t){ { 0, 0 } }); EQ("hash:city128", r.v[0], h2[0]); EQ("hash:city128", r.v[1], h2[1]);
    r_city128s(ref, n, 0, 5, h2); r = city_hash_128(p, n, (uint_128_t){ { 0, 5 } }); EQ("hash:city128half", r.v[0], h2[0]);
    EQ("hash:yorrike", yorrike_hash32(p, n, s3), r_yor(ref, n, s3));
    vh_count("hashes", 17); vh_count("bytes", n);
}
static void vectors(void)
{   /* published vectors pin the reference itself */
    u64 k[2] = { 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull }; u8 b[15]; for (int i = 0; i < 15; i++) b[i] = (u8)i; const u8 *h = (const u8 *)"hello"; u64 o[2]; u32 q[4];
    int bad = r_sip(b, 15, k) != 0xa129ca6149be45e5ull || r_sip(b, 0, k) != 0x726fdb47dd0e0e31ull || r_x32(b, 0, 0) != 0x02CC5D05u || r_x64(b, 0, 0) != 0xEF46DB3751D8E999ull || r_x32((const u8 *)"abc", 3, 0) != 0x32D153FFu || r_x64((const u8 *)"abc", 3, 0) != 0x44BC2CF5AD770999ull || r_m32(b, 0, 1) != 0x514E28B7u || r_m32(h, 5, 0) != 0x248bfa47u || r_fnv((const u8 *)"a", 1) != 0xe40c292cu || r_fnv64((const u8 *)"foobar", 6) != 0x85944171f73967e8ull || r_city(b, 0) != CK2;
    r_m64(h, 5, 0, o); bad |= (o[0] != 0xcbd8a7b341bd9b02ull || o[1] != 0x5b1e906a48ae1d19ull) << 1; r_m86(b, 0, 0, q); bad |= (q[0] != 0) << 2; if (bad) vh_emitf("@X", "reference is wrong (%x)", bad); vh_count("vectors", 13);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); vectors();
    if (vh_shard == 0 && vh_begin(0)) { vh_case("probe: yorrike_hash32 of \"ab\" and \"cd\", length 2, seed 0"); if (yorrike_hash32("ab", 2, 0) == yorrike_hash32("cd", 2, 0)) { vh_viol("hash:yorrike-ignores-bytes", "two-byte strings \"ab\" and \"cd\" have the same hash: the bytes are not used"); vh_nviol--; } }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = c < 600 ? c : vrp(60) ? vrn(140) : vrp(80) ? vrn(700) : vrsz(20000), off = vrn(16); u64 s = vrp(15) ? 0 : vrp(15) ? ~0ull : vrp(20) ? vrn(4) : vr(); u8 *ref = malloc(n + !n), *blk = malloc(off + n + !(off + n)); int k = (int)vrn(6); for (size_t i = 0; i < n; i++) ref[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (u8)i : (u8)vr(); memcpy(blk + off, ref, n);
        vh_case("%zu bytes at offset %zu, seed %llx: %s", n, off, (unsigned long long)s, vh_hex(ref, n < 200 ? n : 200)); all(blk + off, ref, n, s, off);
        if (memcmp(blk + off, ref, n)) vh_viol("hash:input", "input modified"); if (off) vh_count("unaligned", 1);
        vh_count("evals", 1); vh_sig(vh_h(vh_hb(s, ref, n), off)); if (c < 3) vh_sample("%s", vh_casebuf); free(ref); free(blk); if (vh_nviol) break;
    }
    return vh_end();
}

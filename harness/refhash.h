/* Independent definitions of the hash functions, all on bytes.  MurmurHash3 (Appleby), SipHash-2-4 (Aumasson, Bernstein),
 * xxHash r39+ (Collet), FNV-1a, fasthash (Tan), SuperFastHash (Hsieh), CityHash 1.0.3 (Pike, Alakuijala). */
typedef unsigned __int128 u128; typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
static u64 ld(const u8 *p, int n) { u64 v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
static u32 rl32(u32 x, int r) { return x << r | x >> (32 - r); }
static u64 rl64(u64 x, int r) { return x << r | x >> (64 - r); }
static u64 rr64(u64 x, int r) { return r ? x >> r | x << (64 - r) : x; }
static u32 fm32(u32 h) { h = (h ^ h >> 16) * 0x85ebca6bu; h = (h ^ h >> 13) * 0xc2b2ae35u; return h ^ h >> 16; }
static u64 fm64(u64 h) { h = (h ^ h >> 33) * 0xff51afd7ed558ccdull; h = (h ^ h >> 33) * 0xc4ceb9fe1a85ec53ull; return h ^ h >> 33; }
static u32 r_m32(const u8 *p, size_t n, u32 h)
{
    for (size_t i = 0; i < n; i += 4) { size_t l = n - i < 4 ? n - i : 4; u32 k = rl32((u32)ld(p + i, (int)l) * 0xcc9e2d51u, 15) * 0x1b873593u; h ^= k; if (l == 4) h = rl32(h, 13) * 5 + 0xe6546b64u; }
    return fm32(h ^ (u32)n);
}
static void r_m86(const u8 *p, size_t n, u32 seed, u32 h[4])
{
    static const u32 c[5] = { 0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93, 0x239b961b }, a[4] = { 0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17 }; static const int rk[4] = { 15, 16, 17, 18 }, rh[4] = { 19, 17, 15, 13 };
    for (int j = 0; j < 4; j++) h[j] = seed; size_t i = 0;
    for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) { h[j] ^= rl32((u32)ld(p + i + 4 * j, 4) * c[j], rk[j]) * c[j + 1]; h[j] = (rl32(h[j], rh[j]) + h[(j + 1) & 3]) * 5 + a[j]; }
    for (int j = 0; i < n; i += 4, j++) { size_t l = n - i < 4 ? n - i : 4; h[j] ^= rl32((u32)ld(p + i, (int)l) * c[j], rk[j]) * c[j + 1]; }
    for (int j = 0; j < 4; j++) h[j] ^= (u32)n; for (int r = 0; r < 2; r++) { h[0] += h[1] + h[2] + h[3]; for (int j = 1; j < 4; j++) h[j] += h[0]; if (!r) for (int j = 0; j < 4; j++) h[j] = fm32(h[j]); }
}
static void r_m64(const u8 *p, size_t n, u64 seed, u64 h[2])
{
    const u64 c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full; u64 x = seed, y = seed; size_t i = 0;
    for (; i + 16 <= n; i += 16) { x ^= rl64(ld(p + i, 8) * c1, 31) * c2; x = (rl64(x, 27) + y) * 5 + 0x52dce729; y ^= rl64(ld(p + i + 8, 8) * c2, 33) * c1; y = (rl64(y, 31) + x) * 5 + 0x38495ab5; }
    size_t l = n - i; if (l > 8) y ^= rl64(ld(p + i + 8, (int)(l - 8)) * c2, 33) * c1; if (l) x ^= rl64(ld(p + i, (int)(l > 8 ? 8 : l)) * c1, 31) * c2;
    x ^= n; y ^= n; x += y; y += x; x = fm64(x); y = fm64(y); x += y; y += x; h[0] = x; h[1] = y;
}
static void sipr(u64 v[4]) { v[0] += v[1]; v[1] = rl64(v[1], 13) ^ v[0]; v[0] = rl64(v[0], 32); v[2] += v[3]; v[3] = rl64(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = rl64(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rl64(v[1], 17) ^ v[2]; v[2] = rl64(v[2], 32); }
static u64 r_sip(const u8 *p, size_t n, const u64 k[2])
{
    u64 v[4] = { k[0] ^ 0x736f6d6570736575ull, k[1] ^ 0x646f72616e646f6dull, k[0] ^ 0x6c7967656e657261ull, k[1] ^ 0x7465646279746573ull };
    for (size_t i = 0;; i += 8) { int last = n - i < 8; u64 m = last ? ld(p + i, (int)(n - i)) | (u64)n << 56 : ld(p + i, 8); v[3] ^= m; sipr(v); sipr(v); v[0] ^= m; if (last) break; }
    v[2] ^= 0xff; for (int i = 0; i < 4; i++) sipr(v); return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static u32 r_x32(const u8 *p, size_t n, u32 s)
{
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u; u32 h; size_t i = 0;
    if (n >= 16) { u32 v[4] = { s + P1 + P2, s + P2, s, s - P1 }; for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) v[j] = rl32(v[j] + (u32)ld(p + i + 4 * j, 4) * P2, 13) * P1; h = rl32(v[0], 1) + rl32(v[1], 7) + rl32(v[2], 12) + rl32(v[3], 18); } else h = s + P5;
    h += (u32)n; for (; i + 4 <= n; i += 4) h = rl32(h + (u32)ld(p + i, 4) * P3, 17) * P4; for (; i < n; i++) h = rl32(h + p[i] * P5, 11) * P1;
    h = (h ^ h >> 15) * P2; h = (h ^ h >> 13) * P3; return h ^ h >> 16;
}
static u64 r_x64(const u8 *p, size_t n, u64 s)
{
    const u64 P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull; u64 h; size_t i = 0;
    if (n >= 32) { u64 v[4] = { s + P1 + P2, s + P2, s, s - P1 }; for (; i + 32 <= n; i += 32) for (int j = 0; j < 4; j++) v[j] = rl64(v[j] + ld(p + i + 8 * j, 8) * P2, 31) * P1; h = rl64(v[0], 1) + rl64(v[1], 7) + rl64(v[2], 12) + rl64(v[3], 18); for (int j = 0; j < 4; j++) h = (h ^ rl64(v[j] * P2, 31) * P1) * P1 + P4; } else h = s + P5;
    h += n; for (; i + 8 <= n; i += 8) h = rl64(h ^ rl64(ld(p + i, 8) * P2, 31) * P1, 27) * P1 + P4; if (i + 4 <= n) { h = rl64(h ^ ld(p + i, 4) * P1, 23) * P2 + P3; i += 4; } for (; i < n; i++) h = rl64(h ^ p[i] * P5, 11) * P1;
    h = (h ^ h >> 33) * P2; h = (h ^ h >> 29) * P3; return h ^ h >> 32;
}
static u64 fmx(u64 h) { h = (h ^ h >> 23) * 0x2127599bf4325c37ull; return h ^ h >> 47; }
static u64 r_fast(const u8 *p, size_t n, u64 s) { const u64 m = 0x880355f21e6d1965ull; u64 h = s ^ n * m; for (size_t i = 0; i < n; i += 8) h = (h ^ fmx(ld(p + i, (int)(n - i < 8 ? n - i : 8)))) * m; return fmx(h); }
static u32 r_fnv(const u8 *p, size_t n) { u32 h = 2166136261u; while (n--) h = (h ^ *p++) * 16777619u; return h; }
static u64 r_fnv64(const u8 *p, size_t n) { u64 h = 14695981039346656037ull; while (n--) h = (h ^ *p++) * 1099511628211ull; return h; }
static u32 r_hsieh(const u8 *p, size_t n, u32 h)
{
    if (!n) return 0; for (; n >= 4; n -= 4, p += 4) { h += (u32)ld(p, 2); h = h << 16 ^ ((u32)ld(p + 2, 2) << 11 ^ h); h += h >> 11; }
    if (n == 3) { h += (u32)ld(p, 2); h ^= h << 16; h ^= (u32)(int32_t)(signed char)p[2] << 18; h += h >> 11; } else if (n == 2) { h += (u32)ld(p, 2); h ^= h << 11; h += h >> 17; } else if (n == 1) { h += (u32)(int32_t)(signed char)p[0]; h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; return h + (h >> 6);
}
#define CK0 0xc3a5c85c97cb3127ull
#define CK1 0xb492b66fbe98f273ull
#define CK2 0x9ae16a3b2f90404full
#define CK3 0xc949d7c7509e6557ull
static u64 csm(u64 v) { return v ^ v >> 47; }
static u64 c16(u64 u, u64 v) { const u64 m = 0x9ddfea08eb382d69ull; u64 a = csm((u ^ v) * m); return csm((v ^ a) * m) * m; }
static u64 F(const u8 *p) { return ld(p, 8); }
static u64 c0_16(const u8 *s, size_t n)
{
    if (n > 8) { u64 b = F(s + n - 8); return c16(F(s), rr64(b + n, (int)n)) ^ b; } if (n >= 4) return c16(n + (ld(s, 4) << 3), ld(s + n - 4, 4)); if (!n) return CK2;
    u32 y = s[0] + ((u32)s[n / 2] << 8), z = (u32)n + ((u32)s[n - 1] << 2); return csm(y * CK2 ^ z * CK3) * CK2;
}
static void cweak(const u8 *s, u64 a, u64 b, u64 o[2]) { a += F(s); b = rr64(b + a + F(s + 24), 21); u64 c = a; a += F(s + 8) + F(s + 16); b += rr64(a, 44); o[0] = a + F(s + 24); o[1] = b + c; }
typedef struct cst { u64 x, y, z, v[2], w[2]; } cst;
static void cround(const u8 *s, cst *q) { q->x = rr64(q->x + q->y + q->v[0] + F(s + 8), 37) * CK1; q->y = rr64(q->y + q->v[1] + F(s + 48), 42) * CK1; q->x ^= q->w[1]; q->y += q->v[0] + F(s + 40); q->z = rr64(q->z + q->w[0], 33) * CK1; cweak(s, q->v[1] * CK1, q->x + q->w[0], q->v); cweak(s + 32, q->z + q->w[1], q->y + F(s + 16), q->w); u64 t = q->z; q->z = q->x; q->x = t; }
static u64 r_city(const u8 *s, size_t n)
{
    if (n <= 16) return c0_16(s, n);
    if (n <= 32) { u64 a = F(s) * CK1, b = F(s + 8), c = F(s + n - 8) * CK2, d = F(s + n - 16) * CK0; return c16(rr64(a - b, 43) + rr64(c, 30) + d, a + rr64(b ^ CK3, 20) - c + n); }
    if (n <= 64) { u64 o[2][2]; const u8 *f[2][4] = { { s, s + 8, s + 16, s + 24 }, { 0, s + n - 24, s + n - 16, s + n - 8 } }; for (int i = 0; i < 2; i++) { u64 a = i ? F(s + 16) + F(s + n - 32) : F(s) + (n + F(s + n - 16)) * CK0, z = F(f[i][3]), b = rr64(a + z, 52), c = rr64(a, 37); a += F(f[i][1]); c += rr64(a, 7); a += F(f[i][2]); o[i][0] = a + z; o[i][1] = b + rr64(a, 31) + c; } u64 r = csm((o[0][0] + o[1][1]) * CK2 + (o[1][0] + o[0][1]) * CK0); return csm(r * CK0 + o[0][1]) * CK2; }
    cst q; q.x = F(s + n - 40); q.y = F(s + n - 16) + F(s + n - 56); q.z = c16(F(s + n - 48) + n, F(s + n - 24)); cweak(s + n - 64, n, q.z, q.v); cweak(s + n - 32, q.y + CK1, q.x, q.w); q.x = q.x * CK1 + F(s);
    for (size_t l = (n - 1) / 64; l; l--, s += 64) cround(s, &q);
    return c16(c16(q.v[0], q.w[0]) + csm(q.y) * CK1 + q.z, c16(q.v[1], q.w[1]) + q.x);
}
static void r_city128s(const u8 *s, size_t n, u64 s0, u64 s1, u64 o[2])
{
    if (n < 128) {
        u64 a = s0, b = s1, c, d; if (n <= 16) { a = csm(a * CK1) * CK1; c = b * CK1 + c0_16(s, n); d = csm(a + (n >= 8 ? F(s) : c)); } else { c = c16(F(s + n - 8) + CK1, a); d = c16(b + n, c + F(s + n - 16)); a += d; for (size_t i = 0; i + 16 < n; i += 16) { a = (a ^ csm(F(s + i) * CK1) * CK1) * CK1; b ^= a; c = (c ^ csm(F(s + i + 8) * CK1) * CK1) * CK1; d ^= c; } }
        a = c16(a, c); b = c16(d, b); o[0] = a ^ b; o[1] = c16(b, a); return;
    }
    cst q; q.x = s0; q.y = s1; q.z = n * CK1; q.v[0] = rr64(q.y ^ CK1, 49) * CK1 + F(s); q.v[1] = rr64(q.v[0], 42) * CK1 + F(s + 8); q.w[0] = rr64(q.y + q.z, 35) * CK1 + q.x; q.w[1] = rr64(q.x + F(s + 88), 53) * CK1;
    for (size_t l = n / 128 * 2; l; l--, s += 64) cround(s, &q); n %= 128; q.x += rr64(q.v[0] + q.z, 49) * CK0; q.z += rr64(q.w[0], 37) * CK0;
    for (size_t t = 32; t < n + 32; t += 32) { const u8 *e = s + (ptrdiff_t)n - (ptrdiff_t)t; q.y = rr64(q.x + q.y, 42) * CK0 + q.v[1]; q.w[0] += F(e + 16); q.x = q.x * CK0 + q.w[0]; q.z += q.w[1] + F(e); q.w[1] += q.v[0]; cweak(e, q.v[0] + q.z, q.v[1], q.v); }
    u64 x = c16(q.x, q.v[0]), y = c16(q.y + q.z, q.w[0]); o[0] = c16(x + q.v[1], q.w[1]) + y; o[1] = c16(x + q.w[1], y + q.v[1]);
}
static void r_city128(const u8 *s, size_t n, u64 o[2])
{
    if (n >= 16) r_city128s(s + 16, n - 16, F(s) ^ CK3, F(s + 8), o); else if (n >= 8) r_city128s(s, 0, F(s) ^ n * CK0, F(s + n - 8) ^ CK1, o); else r_city128s(s, n, CK0, CK1, o);
}

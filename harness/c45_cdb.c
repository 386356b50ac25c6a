/* C45: constant-database reader against files built by an independent writer, well-formed, colliding, corrupt and truncated; the mapping is exact so that ASan sees every stray read */
#include "vh.h"
#include <sys/types.h>
#include "cdb_reader.h"
#include "refhash.h"

static u8 *given; static size_t givenlen; static int failmap, failstat, maps, unmaps, armed;
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_fstat(int, struct stat *);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    if (fd < 0 || !armed) return __real_mmap(a, n, pr, fl, fd, o); if (failmap) { errno = ENOMEM; return MAP_FAILED; } if (vh_mode[0] == 'r') return __real_mmap(a, n, pr, fl, fd, o);
    struct stat st; __real_fstat(fd, &st); size_t l = (size_t)st.st_size - (size_t)o; if (l > n) l = n; if (l < n) return MAP_FAILED; u8 *p = malloc(l); if (pread(fd, p, l, o) != (ssize_t)l) { free(p); errno = ENODEV; return MAP_FAILED; } given = p; givenlen = l; maps++; return p;
}
int __wrap_munmap(void *a, size_t n) { if (a == given && given) { unmaps++; free(given); given = 0; return 0; } return __real_munmap(a, n); }
int __wrap_fstat(int fd, struct stat *st) { if (failstat) { errno = EIO; return -1; } return __real_fstat(fd, st); }
static u32 chash(const void *k, size_t n) { u64 h = r_fast(k, n, 0x2de9ce7b97d9569full); return (u32)(h - (h >> 32)); }
typedef struct kv { u8 k[64]; size_t kl; u8 *v; size_t vl; u32 h; } kv;
static u32 L(const u8 *p) { return p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; }
static void S(u8 *p, u32 v) { p[0] = (u8)v; p[1] = (u8)(v >> 8); p[2] = (u8)(v >> 16); p[3] = (u8)(v >> 24); }
/* reference lookup: 1 found, 0 absent, -1 corrupt */
static int look(const u8 *f, size_t n, const u8 *k, size_t kl, u64 *vo, u64 *vl)
{
    u32 h = chash(k, kl), o = L(f + (h & 255) * 8), len = L(f + (h & 255) * 8 + 4); if (!len) return 0; u64 s = (h >> 8) % len;
    for (u64 i = 0; i < len; i++, s = (s + 1) % len) { u64 p = o + 8 * s; if (p + 8 > n) return -1; u32 sh = L(f + p); u64 ro = L(f + p + 4); if (!ro) return 0; if (sh != h) continue; if (ro + 8 > n) return -1; u64 a = L(f + ro), b = L(f + ro + 4); if (ro + 8 + a + b > n) return -1; if (a == kl && !memcmp(f + ro + 8, k, kl)) { *vo = ro + 8 + a; *vl = b; return 1; } }
    return 0;
}
typedef struct col { u32 h; u32 i; } col; static int ccmp(const void *a, const void *b) { const col *x = a, *y = b; return x->h < y->h ? -1 : x->h > y->h; }
static u32 pair[64][2]; static int npair; static size_t ckey(u8 *b, u32 i) { return (size_t)sprintf((char *)b, "key-%08x", i * 2654435761u); }
static u64 minv(u64 a) { u64 x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static u64 unmix(u64 h) { h ^= h >> 47; h *= minv(0x2127599bf4325c37ull); return h ^ h >> 23 ^ h >> 46; }
/* an 8-byte key with a given hash */
static void keyof(u8 *b, u32 h, u32 free_bits) { u64 v = (u64)free_bits << 32 | (u32)(h + free_bits); const u64 m = 0x880355f21e6d1965ull; u64 k = unmix(unmix(v) * minv(m) ^ (0x2de9ce7b97d9569full ^ 8 * m)); for (int i = 0; i < 8; i++) b[i] = (u8)(k >> (8 * i)); if (chash(b, 8) != h) vh_emitf("@X", "key inversion"); }
static int nfd(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
/* a (sparse) file that fills the 32-bit positions to the last: records and tables around 2 and 4 gigabytes */
static void huge(const char *path)
{
    u64 reg[5] = { 2048 + vrn(9), (1ull << 31) - vrn(4000), 3000000000ull + vrn(1000), (1ull << 32) - 40000 - vrn(1000), (1ull << 32) - 2000 - vrn(2000) }; int n = 30 + (int)vrn(200), fac = (int)vrn(3); kv *K = calloc((size_t)n, sizeof *K); u64 *ro = calloc((size_t)n, sizeof *ro); int fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0600);
    for (int i = 0; i < n; i++) { kv *e = &K[i]; e->kl = (size_t)sprintf((char *)e->k, "%x/%d", (u32)vr(), i); e->vl = vrn(200); e->v = malloc(e->vl + 1); vrbytes(e->v, e->vl); e->h = chash(e->k, e->kl); int r = (int)vrn(5); if (reg[r] + 8 + e->kl + e->vl > 1ull << 32 || (r == 3 && reg[r] > (1ull << 32) - 8000)) r = 0; if (r == 4) r = 3; ro[i] = reg[r]; u8 b[400]; S(b, (u32)e->kl); S(b + 4, (u32)e->vl); memcpy(b + 8, e->k, e->kl); memcpy(b + 8 + e->kl, e->v, e->vl); size_t l = 8 + e->kl + e->vl; if (pwrite(fd, b, l, (off_t)ro[i]) != (ssize_t)l) vh_emitf("@X", "sparse file"); reg[r] += l; }
    u64 t = reg[4]; u8 head[2048]; memset(head, 0, sizeof head); int last = (int)vrn(256), full = 0;
    for (int bb = 0; bb < 256; bb++) { int b = (bb + last) & 255; u32 m = 0; for (int i = 0; i < n; i++) m += (K[i].h & 255) == (u32)b; u32 len = !m ? 0 : fac == 0 ? m : fac == 1 ? 2 * m : m + 1; if (!len) continue; if (t >= 1ull << 32) { t = reg[0] + 5000; full = 1; reg[0] += 100000; } S(head + b * 8, (u32)t); S(head + b * 8 + 4, len); u8 *tb = calloc(len, 8); for (int i = 0; i < n; i++) if ((K[i].h & 255) == (u32)b) { u32 s = (K[i].h >> 8) % len; while (L(tb + 8 * s + 4)) s = (s + 1) % len; S(tb + 8 * s, K[i].h); S(tb + 8 * s + 4, (u32)ro[i]); } if (pwrite(fd, tb, 8 * (size_t)len, (off_t)t) != 8 * (ssize_t)len) vh_emitf("@X", "sparse file"); free(tb); t += 8 * (u64)len; }
    if (pwrite(fd, head, 2048, 0) != 2048 || ftruncate(fd, (off_t)((1ull << 32) + 4096))) vh_emitf("@X", "sparse file"); close(fd);
    vh_case("a file of 4 gigabytes with %d keys%s", n, full ? ", a table across the end of the 32-bit positions" : ""); CDB *db = malloc(sizeof *db); int r = cdb_read_init(db, path); if (r) { vh_viol("cdb:open", "open returned %d", r); goto out; }
    for (int i = 0; i < n + 30 && !vh_nviol; i++) { u8 kb[40]; size_t kl; if (i < n) { kl = K[i].kl; memcpy(kb, K[i].k, kl); } else kl = (size_t)sprintf((char *)kb, "none %d", i); u8 *k = vh_dup(kb, kl); void *p = (void *)1; ssize_t q = cdb_find(db, &p, k, kl); free(k); if (i >= n) { if (q != -ENOENT) vh_viol("cdb:absent", "absent key: returned %zd", q); } else if (q != (ssize_t)K[i].vl || memcmp(p, K[i].v, K[i].vl)) vh_viol("cdb:value", "key at %llu: returned %zd, expected %zu", (unsigned long long)ro[i], q, K[i].vl); else vh_count("far_found", 1); }
    __real_munmap(db->mmap, db->size); close(db->fd);
out:
    free(db); unlink(path); for (int i = 0; i < n; i++) free(K[i].v); free(K); free(ro); vh_count("huge_files", 1);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); { enum { N = 400000 }; col *c = malloc(N * sizeof *c); for (u32 i = 0; i < N; i++) { u8 b[32]; size_t l = ckey(b, i); c[i].h = chash(b, l); c[i].i = i; } qsort(c, N, sizeof *c, ccmp); for (u32 i = 1; i < N && npair < 64; i++) if (c[i].h == c[i - 1].h && c[i].h) { pair[npair][0] = c[i - 1].i; pair[npair++][1] = c[i].i; } free(c); if (!npair) vh_emitf("@X", "no colliding keys"); }
    char path[300]; snprintf(path, sizeof path, "%s/cdb", vh_tmp);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        if (vh_mode[0] == 'r' && vh_mode[1] == 'h') { huge(path); vh_count("evals", 1); vh_sig(vr()); if (vh_nviol) break; continue; }
        int nk = c % 350 == 301 ? 66000 + (int)vrn(8000) : vrp(15) ? (int)vrn(3) : vrp(80) ? (int)vrn(60) : (int)vrn(1500), nc = vrp(40) ? 1 + (int)vrn(3) : 0; kv *K = calloc((size_t)nk + 8, sizeof *K); int n = 0; int few = nk < 60000 && vrp(50);
        for (int i = 0; i < nk; i++) { kv *e = &K[n]; e->kl = vrp(60) ? 1 + vrn(12) : vrp(20) ? 0 : 1 + vrn(60); vrbytes(e->k, e->kl); if (nk >= 60000) { e->kl = 4 + e->kl % 9; S(e->k, (u32)i); } if (few) for (size_t q = 0; q < e->kl; q++) e->k[q] = 'a' + e->k[q] % 3; if ((nk < 60000 && vrp(3)) || (few && vrp(10))) { e->kl = 8; keyof(e->k, vrp(60) ? 0 : vrp(50) ? (u32)vrn(4) << 8 : (u32)vr(), (u32)vr()); } int dup = 0; e->h = chash(e->k, e->kl); for (int j = 0; j < n && nk < 60000 && (few || e->kl < 4); j++) dup |= K[j].kl == e->kl && !memcmp(K[j].k, e->k, e->kl); if (!dup) n++; }
        int collide[3] = { -1, -1, -1 }; for (int i = 0; i < nc; i++) { u32 *p = pair[vrn((u64)npair)]; int was = 0; for (int q = 0; q < i; q++) was |= collide[q] == (int)p[0]; if (was) continue; collide[i] = (int)p[0]; int both = vrp(70), sw = (int)vrn(2); for (int q = 0; q < 1 + both; q++) { kv *e = &K[n++]; e->kl = ckey(e->k, p[q ^ sw]); e->h = chash(e->k, e->kl); } }
        for (int i = n - 1; i > 0; i--) { int j = (int)vrn((u64)i + 1); kv t = K[i]; K[i] = K[j]; K[j] = t; }
        /* writer: records, then per-bucket tables of twice (or just) the number of keys */
        size_t cap = 2048 + 64; for (int i = 0; i < n; i++) { K[i].vl = vrp(15) ? 0 : vrp(90) ? vrn(50) : vrn(5000); cap += 8 + K[i].kl + K[i].vl + 16; } cap += 256 * 64; u8 *f = calloc(cap + (size_t)n * 32, 1); size_t o = 2048 + vrn(4); size_t *ro = calloc((size_t)n + 1, sizeof *ro);
        for (int i = 0; i < n; i++) { ro[i] = o; S(f + o, (u32)K[i].kl); S(f + o + 4, (u32)K[i].vl); memcpy(f + o + 8, K[i].k, K[i].kl); K[i].v = f + o + 8 + K[i].kl; vrbytes(K[i].v, K[i].vl); o += 8 + K[i].kl + K[i].vl; }
        int fac = (int)vrn(3); for (int b = 0; b < 256; b++) { u32 m = 0; for (int i = 0; i < n; i++) m += (K[i].h & 255) == (u32)b; u32 len = !m ? 0 : fac == 0 ? m : fac == 1 ? 2 * m : m + 1; S(f + b * 8, (u32)o); S(f + b * 8 + 4, len); for (int i = 0; i < n; i++) if ((K[i].h & 255) == (u32)b) { u32 s = (K[i].h >> 8) % len; while (L(f + o + 8 * s + 4)) s = (s + 1) % len; S(f + o + 8 * s, K[i].h); S(f + o + 8 * s + 4, (u32)ro[i]); } o += 8 * (size_t)len; }
        size_t fl = o; int kind = (int)vrn(10); const char *what = "well-formed"; u8 *g = malloc(fl + 64); memcpy(g, f, fl);
        if (kind == 0) { fl = vrp(50) ? vrn(fl + 1) : 2040 + vrn(16); if (fl > o) fl = o; what = "truncated"; } else if (kind == 1) { for (int q = 1 + (int)vrn(6); q; q--) g[vrn(fl)] ^= (u8)(1u << vrn(8)); what = "flipped bits"; } else if (kind == 2) { for (int q = 1 + (int)vrn(4); q; q--) { size_t p = vrp(60) ? vrn(256) * 8 + 4 * vrn(2) : vrp(60) && n ? ro[vrn((u64)n)] + 4 * vrn(2) : vrn(fl - 3); u32 v = vrp(30) ? 0xffffffffu - (u32)vrn(20) : vrp(50) ? (u32)(fl - 12 + vrn(24)) : vrp(30) ? 0x20000000u + (u32)vrn(8) : (u32)vr(); S(g + p, v); } what = "bad fields"; } else if (kind == 3) { if (vrp(30)) vrbytes(g, fl); else for (size_t q = 0; q < 2048; q += 4) S(g + q, vrp(50) ? (u32)vrn(fl + 8) : (u32)vrn(40)); what = "random"; } else if (kind == 4 && n) { size_t q = ro[n - 1]; (void)q; /* slots that point at records whose lengths reach just beyond the end */ int i = (int)vrn((u64)n); size_t rest = fl - ro[i] - 8; if (vrp(50)) S(g + ro[i] + 4, (u32)(rest - K[i].kl + vrn(3))); else { S(g + ro[i], 0xfffffff8u - (u32)K[i].vl + (u32)vrn(16)); } what = "reaching past the end"; }
        int corrupt = kind <= 4 && strcmp(what, "well-formed"); int fail = vrp(10) ? 1 + (int)vrn(4) : 0; vh_case("%d keys (%d colliding), %s file of %zu bytes%s", n, nc, what, fl, fail == 1 ? ", mmap fails" : fail == 2 ? ", fstat fails" : fail == 3 ? ", no such file" : fail == 4 ? ", a directory" : "");
        int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, g, fl) != (ssize_t)fl) vh_emitf("@X", "scratch file"); close(fd); g = realloc(g, fl + !fl); uint64_t sig = vh_hb(fl, g, fl < 2048 ? fl : 2048);
        failmap = fail == 1; failstat = fail == 2; int f0 = nfd(); CDB *db = malloc(sizeof *db); memset(db, 0xA5, sizeof *db); char np[400]; snprintf(np, sizeof np, "%s/none", vh_tmp); armed = 1; int r = cdb_read_init(db, fail == 3 ? np : fail == 4 ? vh_tmp : path); armed = failmap = failstat = 0; int f1 = nfd();
        int bad = fail || fl < 2048; if (bad ? r >= 0 : r != 0) vh_viol("cdb:open", "open returned %d", r);
        else if (bad) { if (f1 != f0) vh_viol("cdb:leak", "a failed open leaves a descriptor open"); if (given) vh_viol("cdb:leak", "a failed open leaves the mapping"); vh_count("failed_opens", 1); }
        else {
            if (!corrupt) vh_count("files", 1); else vh_count("corrupt_files", 1);
            for (int i = 0; i < n + 40 && !vh_nviol; i++) {
                u8 kb[80]; size_t kl; if (i < n) { kl = K[i].kl; memcpy(kb, K[i].k, kl); } else if (n && vrp(50)) { kv *e = &K[vrn((u64)n)]; kl = e->kl; memcpy(kb, e->k, kl); if (kl && vrp(60)) kb[vrn(kl)] ^= (u8)(1 + vrn(255)); else if (kl && vrp(50)) kl--; else kb[kl++] = 0; } else if (vrp(50)) { u32 *p = pair[vrn((u64)npair)]; kl = ckey(kb, p[vrn(2)]); } else if (vrp(30)) { kl = 8; keyof(kb, (u32)vrn(3) << 8, (u32)vr()); } else { kl = vrn(60); vrbytes(kb, kl); }
                u8 *k = vh_dup(kb, kl); u64 vo = 0, vl = 0; int e = look(g, fl, k, kl, &vo, &vl); void *p = (void *)1; ssize_t q = cdb_find(db, &p, k, kl);
                if (!corrupt && e == 1 && (q != (ssize_t)vl || p < (void *)db->mmap || memcmp(p, g + vo, vl))) vh_viol("cdb:value", "key %s: returned %zd, expected the value of %llu bytes", vh_hex(k, kl), q, (unsigned long long)vl);
                else if (!corrupt && e == 0 && q != -ENOENT) vh_viol("cdb:absent", "absent key %s: returned %zd", vh_hex(k, kl), q);
                else if (corrupt && q >= 0 && (e != 1 || q != (ssize_t)vl || (u8 *)p < db->mmap || (u8 *)p + q > db->mmap + fl || memcmp(p, g + vo, vl))) vh_viol("cdb:corrupt", "key %s in a corrupt file: returned %zd, reference says %d", vh_hex(k, kl), q, e);
                vh_count(e == 1 ? "found" : e == 0 ? "absent" : "corrupt_lookups", 1); if (e == 1 && !chash(k, kl)) vh_count("zero_hashes", 1); if (e == 1 && !vl) vh_count("empty_values", 1); if (i < n && e == 1 && n < 3000) for (int z = 0; z < n; z++) if (z != i && K[z].h == K[i].h) { vh_count("collisions", 1); break; } free(k);
            }
            if (given) { free(given); given = 0; } else if (vh_mode[0] == 'r') __real_munmap(db->mmap, db->size); close(db->fd);
        }
        if (given) { free(given); given = 0; } free(db); free(g); free(f); free(ro); free(K);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

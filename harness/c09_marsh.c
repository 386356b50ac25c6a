/* C09: saved filters: identical after reload, damaged and crafted files, failing steps */
#include "vh.h"
#include "utils/utils.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include "sodium.h"
#include "fakemap.h"
static uint64_t ent;
int getentropy(void *p, size_t n) { unsigned char *q = p; while (n--) { ent = vh_mix(ent + 0x1234567); *q++ = (unsigned char)(ent >> 33); } return 0; }
static char F[300]; static unsigned char *FB; static size_t FN;
static void slurp(const char *f) { free(FB); int fd = open(f, O_RDONLY); struct stat st; FN = 0; FB = 0; if (fd >= 0 && !fstat(fd, &st)) { FN = (size_t)st.st_size; FB = malloc(FN + 1); if (read(fd, FB, FN) != (ssize_t)FN) FN = 0; } close(fd); }
static void spit(const char *f, const void *p, size_t n) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, p, n) != (ssize_t)n) vh_emitf("@X", "write"); close(fd); }
static void fixsum(int xor_, unsigned char *b, size_t n)
{
    if (n < 32) return;
    uint8_t l[8]; crypto_hash_sha256_state h; crypto_hash_sha256_init(&h);
    if (xor_) { for (int i = 0; i < 8; i++) l[i] = (uint8_t)((uint64_t)n >> (8 * i)); crypto_hash_sha256_update(&h, l, 8); crypto_hash_sha256_update(&h, b, n - 32); crypto_hash_sha256_final(&h, b + n - 32); return; }
    for (int i = 0; i < 8; i++) l[i] = (uint8_t)((uint64_t)(n - 32) >> (56 - 8 * i));
    if (n > 40 && b[7] == 1) { crypto_generichash_state g; crypto_generichash_init(&g, 0, 0, 32); crypto_generichash_update(&g, b, n - 32); crypto_generichash_update(&g, l, 8); crypto_generichash_final(&g, b + n - 32, 32); return; }
    crypto_hash_sha256_update(&h, b, n - 32); crypto_hash_sha256_update(&h, l, 8); crypto_hash_sha256_final(&h, b + n - 32);
}
typedef struct { int xor_, kind; Bloom *b; Xorfilter *x; } filt;
static uint64_t KK[3000]; static int nkk;
static int save(filt *f, const char *n) { return f->xor_ ? Xorfilter_marshal(f->x, n) : Bloom_marshal(f->b, n); }
static int load(int xor_, filt *f, const char *n, int mm) { f->xor_ = xor_; f->b = 0; f->x = 0; return xor_ ? Xorfilter_unmarshal(&f->x, n, mm ? XORFILTER_MMAP : 0) : Bloom_unmarshal(&f->b, n, mm ? BLOOM_BITMAP_MMAP : 0); }
static int has(filt *f, uint64_t k) { return f->xor_ ? !!Xorfilter_contains(f->x, k) : !!Bloom_find(f->b, k); }
static void drop(filt *f) { if (f->xor_) Xorfilter_delete(f->x); else Bloom_delete(f->b); f->x = 0; f->b = 0; }
static void mk(filt *f)
{
    memset(f, 0, sizeof *f); f->xor_ = vrp(40); nkk = 1 + (int)vrsz(2500); uint64_t base = vr(); for (int i = 0; i < nkk; i++) KK[i] = vh_mix(base + (uint64_t)i); f->kind = (int)vrn(3);
    if (f->xor_) { f->x = f->kind & 1 ? Xorfilter_new16(KK, (size_t)nkk) : Xorfilter_new8(KK, (size_t)nkk); if (!f->x) vh_viol("marsh:build", "xor filter of %d keys not built", nkk); }
    else { uint64_t n = 1 + vrsz((uint64_t)nkk); double e = vrp(50) ? 0.01 : 0.2; f->b = f->kind == 2 ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, f->kind); for (int i = 0; i < nkk; i++) Bloom_probe(f->b, KK[i]); }
}
static void same(filt *a, filt *b)
{
    for (int i = 0; i < nkk; i++) if (!has(b, KK[i])) { vh_viol("marsh:member", "member lost after reload"); break; }
    uint64_t q = vr(); for (int i = 0; i < 3000; i++) { uint64_t k = vh_mix(q + (uint64_t)i); if (has(a, k) != has(b, k)) { vh_viol("marsh:answer", "reloaded filter answers %d, original %d", has(b, k), has(a, k)); break; } }
    if (!a->xor_) { if (!Bloom_eq(a->b, b->b) || a->b->n != b->b->n || a->b->e != b->b->e || a->b->typ != b->b->typ || strcmp(Bloom_name(a->b), Bloom_name(b->b))) vh_viol("marsh:params", "reloaded bloom filter describes itself differently"); }
    else if (Xorfilter_bpe(a->x) != Xorfilter_bpe(b->x)) vh_viol("marsh:bpe", "bits per entry differ");
    vh_count("answers_compared", 3000);
}

#define CLEAN(fds, live, w) do { if (fd_count() != (fds)) vh_viol("marsh:fd-left", "%s: %d descriptors, was %d", w, fd_count(), fds); if (fm_live != (live)) vh_viol("marsh:map-left", "%s: %d mappings, was %d", w, fm_live, live); } while (0)
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (sodium_init() < 0) return 3;
    snprintf(F, sizeof F, "%s/f.dat", vh_tmp); char G[300]; snprintf(G, sizeof G, "%s/g.dat", vh_tmp);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        ent = vr(); filt a, b; mk(&a); vh_case("%s kind=%d keys=%d ", a.xor_ ? "xor" : "bloom", a.kind, nkk); uint64_t sig = vh_h((uint64_t)nkk, (uint64_t)(a.xor_ * 4 + a.kind));
        if (vh_nviol) break;
        int fds = fd_count(), live = fm_live, r; fm_armed = 1; unlink(F); unlink(G);
        r = save(&a, F); if (r) { vh_viol("marsh:save", "saving returned %d", r); break; } CLEAN(fds, live, "after save");
        slurp(F);
        for (int mm = 0; mm < 2; mm++) {
            r = load(a.xor_, &b, F, mm); if (r || (!b.b && !b.x)) { vh_viol("marsh:load", "loading a good file returned %d (mmap=%d)", r, mm); break; }
            if (fd_count() != fds) vh_viol("marsh:load-fd", "descriptor left by loading");
            same(&a, &b);
            if (vrp(50)) { unsigned char *s = malloc(FN); size_t sn = FN; memcpy(s, FB, FN); r = save(&b, G); slurp(G); if (r || FN != sn || memcmp(s, FB, sn)) vh_viol("marsh:resave", "saving the reloaded filter gives another file (r=%d)", r); free(s); slurp(F); }
            drop(&b); CLEAN(fds, live, "after load and delete");
        }
        if (vh_nviol) break;
        /* failing steps while saving over an existing file */
        if (vrp(40)) for (int k = 1; k <= 9; k++) {
            fm_dirty = 0; spit(G, "precious", 8); int dc = dir_count(vh_tmp); fm_failat = k; fm_calls = 0; r = save(&a, G); int hit = fm_calls >= k; fm_failat = 0;
            if (hit && r >= 0) vh_viol("marsh:fault-unreported", "step %d failed but saving returned %d", k, r);
            if (!hit && r) vh_viol("marsh:save-again", "saving returned %d", r);
            CLEAN(fds, live, "after failed save"); if (dir_count(vh_tmp) != dc) vh_viol("marsh:temp-left", "temporary file left after failed step %d", k);
            slurp(G); if (hit && (FN != 8 || memcmp(FB, "precious", 8))) vh_viol("marsh:target-damaged", "failed save changed the target"); 
            vh_count("faults", 1); if (!hit) break;
        }
        if (vrp(10)) { char H[400]; snprintf(H, sizeof H, "%s/none/x", vh_tmp); r = save(&a, H); if (r >= 0) vh_viol("marsh:nodir", "saving into a missing directory returned %d", r); CLEAN(fds, live, "missing directory"); r = load(a.xor_, &b, H, 0); if (r >= 0) vh_viol("marsh:nofile", "loading a missing file returned %d", r); }
        if (vrp(30)) for (int k = 1; k <= 4; k++) { fm_failat = k; fm_calls = 0; r = load(a.xor_, &b, F, (int)vrn(2)); int hit = fm_calls >= k; fm_failat = 0; if (!hit) { if (r) vh_viol("marsh:load", "loading a good file returned %d", r); else drop(&b); CLEAN(fds, live, "load and delete"); break; } if (r >= 0) vh_viol("marsh:load-fault", "step %d of loading failed but it returned %d", k, r); CLEAN(fds, live, "failed load"); vh_count("load_faults", 1); }
        /* damaged files */
        slurp(F); unsigned char *good = vh_dup(FB, FN); size_t gn = FN;
        for (int t = 0; t < 12 && !vh_nviol; t++) {
            size_t n = gn; unsigned char *m = malloc(gn + 300); memcpy(m, good, gn); int how = (int)vrn(6), crafted = 0; 
            switch (how) {
            case 0: n = vrp(30) ? vrn(200) : vrp(50) ? gn - 1 - vrn(gn < 70 ? gn : 70) : vrn(gn); break;
            case 1: m[vrp(50) ? vrn(gn) : vrn(120)] ^= (unsigned char)(1 << vrn(8)); break;
            case 2: n = gn + 1 + vrn(200); memset(m + gn, (int)vrn(256), n - gn); break;
            case 3: { vrbytes(m, n); crafted = vrp(50); if (crafted) { memcpy(m, good, 8); fixsum(a.xor_, m, n); } break; }
            default: { /* header fields with a valid checksum */
                crafted = 1; int k = 1 + (int)vrn(3);
                while (k--) { size_t hs = a.xor_ ? 24 : (vrp(60) ? 104 : 256); if (hs > n - 40) hs = n - 40; size_t o = 4 + vrn(hs - 4), w = 1u << vrn(4); uint64_t v; switch (vrn(8)) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = n; break; case 3: v = n - vrn(100); break; case 4: v = 1ull << vrn(64); break; case 5: v = vrn(300); break; case 6: v = n * 8; break; default: v = vr(); }
                    if (vrp(60) && !a.xor_) { /* aligned directory / filter header fields */ static const int offs[] = { 5, 7, 8, 16, 24, 64, 68, 72, 80, 88, 128, 136, 144, 152, 160 }; o = (size_t)offs[vrn(15)]; w = o < 8 ? 1 : o == 64 || o == 68 ? 4 : 8; if (o + 8 > n - 32) o = 5; }
                    if (vrp(70) && a.xor_) { o = 16 + 4 * vrn(2); w = 4; }
                    for (size_t i = 0; i < w && o + i < n - 32; i++) m[o + i] = (unsigned char)(v >> (8 * i)); }
                if (vrp(15)) { n = gn - (size_t)vrn(gn > 300 ? 300 : gn); if (n < 40) n = 40; }
                if (!a.xor_ && vrp(60) && n > 40) for (int i = 0; i < 8; i++) m[24 + i] = (unsigned char)((uint64_t)(n - 32) >> (8 * i));
                fixsum(a.xor_, m, n); break; }
            }
            vh_case("%s kind=%d keys=%d damage %d size %zu of %zu head %s", a.xor_ ? "xor" : "bloom", a.kind, nkk, how, n, gn, vh_hex(m, n > 176 ? 176 : n));
            int changed = n != gn || memcmp(m, good, gn); spit(G, m, n); int mm = (int)vrn(2);
            r = load(a.xor_, &b, G, mm);
            if (r == 0 && changed && !crafted) vh_viol("marsh:damage-accepted", "file damaged in way %d was loaded", how);
            if (r > 0) vh_viol("marsh:positive-error", "loading returned %d", r);
            if (r == 0) { if (!b.b && !b.x) vh_viol("marsh:no-filter", "success without a filter"); else { uint64_t s = 0; for (int i = 0; i < 300; i++) s += (uint64_t)has(&b, vr()); (void)s; for (int i = 0; i < nkk && i < 100; i++) has(&b, KK[i]); drop(&b); vh_count("crafted_accepted", 1); } }
            CLEAN(fds, live, "damaged file"); vh_count("damaged_files", 1); vh_count(r ? "rejected" : "accepted", 1); sig = vh_h(sig, n + (uint64_t)how);
            free(m);
        }
        free(good); drop(&a); fm_armed = 0; vh_count("evals", 1); vh_sig(sig); if (c < 4) vh_sample("%s kind=%d keys=%d file of %zu bytes", a.xor_ ? "xor" : "bloom", a.kind, nkk, gn);
        if (vh_nviol) break;
    }
    free(FB);
    return vh_end();
}

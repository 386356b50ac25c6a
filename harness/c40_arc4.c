/* C40: arc4random against an exact model of the construction over libsodium's ChaCha20 and the recorded entropy; threads and forks */
#include "vh.h"
#include <pthread.h>
#include <sodium.h>
#include "utils/arc4random.h"
typedef uint8_t u8; typedef uint64_t u64; typedef uint32_t u32;
enum { SEED = 40, BUF = 1024, BASE = 1024, MAXE = 200000 };
int __real_getentropy(void *, size_t);
static __thread u8 (*elog_)[SEED]; static __thread int nlog, used; static __thread u64 esalt, outbytes; static int efail; static int shared_n; static u64 seedbase;
static __thread int armed; static int badsize;
int __wrap_getentropy(void *b, size_t n)
{
    if (!armed) return __real_getentropy(b, n); if (efail) { errno = EIO; return -1; }
    if (n < 16 || n > 256) { __atomic_store_n(&badsize, (int)n, __ATOMIC_RELAXED); }
    u64 id = (u64)__atomic_fetch_add(&shared_n, 1, __ATOMIC_RELAXED), x = seedbase ^ id * 0x9e3779b97f4a7c15ull ^ esalt; u8 tmp[256]; for (size_t i = 0; i < 256; i += 8) { x = vh_mix(x + i); memcpy(tmp + i, &x, 8); } if (n > 256) n = 256; memcpy(b, tmp, n);
    if (elog_ && nlog < MAXE) { memcpy(elog_[nlog], tmp, SEED); nlog++; } outbytes = 0; return 0;
}
/* model of one thread's generator, fed with the entropy the code under test took in this thread */
typedef struct mdl { u8 key[32], iv[8]; u64 ctr; u8 buf[BUF]; size_t have, count; int live; } mdl;
static void ks(mdl *m, u8 *out, size_t n) { u8 z[BUF] = { 0 }; crypto_stream_chacha20_xor_ic(out, z, n, m->iv, m->ctr, m->key); m->ctr += (n + 63) / 64; }
static int seed(u8 *s) { if (used >= nlog) return 0; memcpy(s, elog_[used++], SEED); return 1; }
static void key(mdl *m, const u8 *k) { memcpy(m->key, k, 32); memcpy(m->iv, k + 32, 8); m->ctr = 0; }
static void rekey(mdl *m, const u8 *dat) { ks(m, m->buf, BUF); if (dat) for (int i = 0; i < SEED; i++) m->buf[i] ^= dat[i]; key(m, m->buf); m->have = BUF - SEED; }
static int setup(mdl *m) { u8 s[SEED]; if (!seed(s)) return 0; key(m, s); rekey(m, 0); m->live = 1; return 1; }
static int want(mdl *m, u8 *out, size_t n)
{
    if (m->count <= n) { u8 s[SEED], f[8]; u64 z; if (!seed(s)) return 0; rekey(m, s); m->have = 0; ks(m, f, 8); memcpy(&z, f, 8); m->count = BASE + z % BASE; }
    m->count = m->count <= n ? 0 : m->count - n; size_t i = 0; while (i < n) { if (!m->have) rekey(m, 0); size_t l = n - i < m->have ? n - i : m->have; memcpy(out + i, m->buf + BUF - m->have, l); m->have -= l; i += l; } return 1;
}
static int get(mdl *m) { return m->live && m->count ? 1 : setup(m); }
static __thread mdl M;
static int one(int op, size_t n, u32 bound, const char *who)
{   /* one call, checked; the entropy log tells what the code consumed */
    u8 *w = malloc(n + !n), *g = malloc(n + !n); int ok = 1; int e0 = nlog; memset(g, 0xA5, n + !n);
    if (op == 0) { arc4random_buf(g, n); ok = get(&M) && want(&M, w, n); if (ok && memcmp(g, w, n)) { size_t i = 0; while (i < n && g[i] == w[i]) i++; vh_viol("arc4:stream", "%s: byte %zu of %zu is not the next byte of the stream", who, i, n); ok = 2; } }
    else if (op == 1) { u32 v = arc4random(), x = 0; ok = get(&M) && want(&M, (u8 *)&x, 4); if (ok && v != x) { vh_viol("arc4:word", "%s: word %08x, expected %08x", who, v, x); ok = 2; } }
    else { u32 v = arc4random_uniform(bound), x = 0; ok = get(&M); if (bound > 0 && v >= bound) { vh_viol("arc4:bound", "%s: %u is not below %u", who, v, bound); ok = 2; } if (ok == 1 && bound >= 2) { u32 min = (u32)((1ull << 32) % bound); int tries = 0; do { ok = want(&M, (u8 *)&x, 4); tries++; } while (ok && x < min); if (tries > 1) vh_count("rejected", (u64)tries - 1); if (ok && v != x % bound) { vh_viol("arc4:uniform", "%s: draw below %u is %u, expected %u", who, bound, v, x % bound); ok = 2; } } else if (bound < 2 && v) { vh_viol("arc4:bound", "%u below %u", v, bound); ok = 2; } }
    if (!ok) { vh_viol("arc4:reseed", "%s: a reseed was due (%llu bytes since the last) but no entropy was taken", who, (unsigned long long)outbytes); ok = 2; }
    else if (ok == 1 && used != nlog) { vh_viol("arc4:entropy", "%s: %d seeds taken, %d expected", who, nlog, used); ok = 2; }
    outbytes += n; if (nlog != e0) vh_count("reseeds", 1); free(w); free(g); return ok == 1;
}
static size_t rsize(void) { int k = (int)vrn(10); return k < 3 ? vrn(20) : k < 5 ? vrn(1100) : k < 6 ? 984 + vrn(3) - 1 : k < 7 ? vrn(2100) : k < 8 ? 0 : vrn(9000); }
static u32 rbound(void) { int k = (int)vrn(8); return k == 0 ? (u32)vrn(5) : k == 1 ? 0x80000001u + (u32)vrn(3) : k == 2 ? 0xffffffffu - (u32)vrn(3) : k == 3 ? 1u << vrn(32) : k == 4 ? (1u << vrn(32)) + 1 : (u32)vr(); }
static u32 nbound(void)
{   /* a bound whose rejection limit lies at, just above or just below the word the stream holds next */
    mdl s = M; int u = used; u32 x = 0; int ok = s.live && s.count > 4 && want(&s, (u8 *)&x, 4); used = u; if (!ok || x < 2 || x > 0x7ffffff0u) return rbound(); vh_count("edge_bounds", 1); return 0u - x - 1 + (u32)vrn(3);
}
static int history(int ops, const char *who) { for (int i = 0; i < ops && !vh_nviol; i++) { int op = (int)vrn(4); if (op == 3) op = 0; size_t n = op == 0 ? rsize() : 4; u32 b = op == 2 ? (vrp(30) ? nbound() : rbound()) : 0; if (strlen(vh_casebuf) < 2000 && *who == 'm') vh_case_add(" %s%zu", op == 0 ? "b" : op == 1 ? "w" : "u", op == 2 ? (size_t)b : n); if (!one(op, n, b, who)) return 0; vh_count(op == 0 ? "buffers" : op == 1 ? "words" : "bounded", 1); vh_count("bytes", n); } return 1; }
static void arm(u64 salt) { elog_ = calloc(MAXE, SEED); nlog = used = 0; esalt = salt; armed = 1; memset(&M, 0, sizeof M); }
typedef struct th { int id; u8 out[4000]; char why[200]; } th;
static void *worker(void *a)
{   /* plain comparison without the harness' random state, which is not per thread */
    th *t = a; arm(0); u64 x = (u64)t->id * 77 + seedbase; size_t n = 0; while (n < sizeof t->out) { x = vh_mix(x); size_t l = x % 97; if (l > sizeof t->out - n) l = sizeof t->out - n; u8 w[100]; arc4random_buf(t->out + n, l); if (!get(&M) || !want(&M, w, l)) { snprintf(t->why, sizeof t->why, "thread %d: entropy missing after %zu bytes", t->id, n); break; } if (memcmp(w, t->out + n, l)) { snprintf(t->why, sizeof t->why, "thread %d: bytes at %zu are not its own stream", t->id, n); break; } n += l; if (x >> 40 & 1) sched_yield(); } if (used != nlog && !*t->why) snprintf(t->why, sizeof t->why, "thread %d: %d seeds, expected %d", t->id, nlog, used); free(elog_); return 0;
}
static int cmp8(const void *a, const void *b) { return memcmp(a, b, 8); }
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (sodium_init() < 0) vh_emitf("@X", "sodium"); seedbase = vh_mix(vh_seed * 1000 + vh_shard); int tmode = vh_mode[0] == 't';
    if (!tmode) arm(1); int first = 1;
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; uint64_t sig = vr(); int kind = tmode ? 0 : (int)vrn(12);
        if (kind == 0) {
            enum { T = 4 }; static th t[T]; pthread_t p[T]; memset(t, 0, sizeof t); vh_case("4 threads"); for (int i = 0; i < T; i++) { t[i].id = (int)c * T + i; pthread_create(&p[i], 0, worker, &t[i]); } for (int i = 0; i < T; i++) pthread_join(p[i], 0); for (int i = 0; i < T; i++) if (*t[i].why) vh_viol("arc4:thread", "%s", t[i].why);
            u8 *all = malloc(sizeof t[0].out * T); for (int i = 0; i < T; i++) memcpy(all + sizeof t[0].out * i, t[i].out, sizeof t[0].out); size_t n = sizeof t[0].out * T / 8; qsort(all, n, 8, cmp8); for (size_t i = 1; i < n; i++) if (!memcmp(all + i * 8 - 8, all + i * 8, 8)) { vh_viol("arc4:repeat", "the same 8 bytes came out twice across threads"); break; } free(all); vh_count("threads", T);
        } else if (kind == 1) {
            vh_case("fork after a history:"); if (!history(1 + (int)vrn(5), "main")) break; int fd[2]; if (pipe(fd)) vh_emitf("@X", "pipe"); int lvl = 1 + (int)vrn(2), before = nlog; fflush(0); pid_t p = fork();
            if (!p) { u8 o[2 * 64] = { 0 }; int seeds = 0; esalt = 7 + c; arc4random_buf(o, 64); seeds = nlog - before; if (lvl == 2) { pid_t q = fork(); if (!q) { esalt = 99; int b2 = nlog; arc4random_buf(o + 64, 64); seeds = seeds && nlog - b2; if (write(fd[1], o, 128) != 128 || write(fd[1], &seeds, sizeof seeds) != sizeof seeds) _exit(1); _exit(0); } int s; waitpid(q, &s, 0); } else { arc4random_buf(o + 64, 64); if (write(fd[1], o, 128) != 128 || write(fd[1], &seeds, sizeof seeds) != sizeof seeds) _exit(1); } _exit(0); }
            u8 o[128], mine[256]; int seeds = 0, st; if (read(fd[0], o, 128) != 128 || read(fd[0], &seeds, sizeof seeds) != sizeof seeds) vh_viol("arc4:fork-died", "the child produced nothing"); waitpid(p, &st, 0); close(fd[0]); close(fd[1]);
            if (!vh_nviol && !seeds) vh_viol("arc4:fork", "a forked child produced output without taking new entropy"); mdl save = M; int u0 = used; (void)u0; if (!vh_nviol) { mdl peek = M; int ok = peek.live; (void)ok; size_t avail = peek.have; if (avail > 256) avail = 256; memcpy(mine, peek.buf + BUF - peek.have, avail); for (size_t i = 0; i + 8 <= avail && !vh_nviol; i++) for (int q = 0; q < 121; q++) if (!memcmp(mine + i, o + q, 8)) { vh_viol("arc4:fork-overlap", "parent and child share 8 bytes of stream"); break; } } M = save; if (!memcmp(o, o + 64, 16)) vh_viol("arc4:fork-repeat", "child's output repeats"); vh_count("forks", 1); if (!vh_nviol) history(2, "main (after fork)");
        } else if (kind == 2 && !first) {
            vh_case("entropy failure in a child"); fflush(0); pid_t p = fork(); if (!p) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); efail = 1; u8 o[16] = { 0 }; arc4random_buf(o, 16); _exit(7); } int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 7) vh_viol("arc4:entropy-failure", "output was produced although the entropy source fails"); vh_count("entropy_failures", 1);
        } else { vh_case("requests:"); if (!history(1 + (int)vrn(vh_thorough ? 200 : 60), "main")) {} vh_count("histories", 1); }
        if (badsize) vh_viol("arc4:seed-size", "seed of %d bytes", badsize); if (nlog > MAXE - 5000) break; first = 0;
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

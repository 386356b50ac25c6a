/* Common harness support: per-case deterministic randomness, event counters,
 * distinct-case signatures, samples, violations.  Works in C and C++. */
#ifndef VH_H
#define VH_H 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/types.h>

#define VH_UNUSED __attribute__((unused))

static int vh_outfd VH_UNUSED = 2;
static char *vh_casebuf VH_UNUSED;            /* shared mapping: survives a crash */
#define VH_CASESZ 65536
static uint64_t vh_seed VH_UNUSED = 1, vh_shard VH_UNUSED = 0, vh_cases VH_UNUSED = 100, vh_only VH_UNUSED = ~0ull;
static uint64_t vh_curcase VH_UNUSED;
static const char *vh_mode VH_UNUSED = "";
static int vh_thorough VH_UNUSED;
static int vh_nviol VH_UNUSED;
static char vh_tmp[256] VH_UNUSED = "/tmp";   /* scratch dir of this run */

/* ---- rng: splitmix64 (own copy; independent of the code under test) */
static uint64_t vh_rs VH_UNUSED;
static inline uint64_t vh_mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t vr(void)
{
    vh_rs += 0x9e3779b97f4a7c15ull;
    return vh_mix(vh_rs);
}
static inline uint64_t vrn(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)vr() * n) >> 64) : 0; }
static inline int64_t  vrr(int64_t lo, int64_t hi) { return lo + (int64_t)vrn((uint64_t)(hi - lo) + 1); }
static inline int      vrp(int pct) { return vrn(100) < (uint64_t)pct; }
/* log-uniform size in [0, max] */
static inline uint64_t vrsz(uint64_t max)
{
    int bits = 0; uint64_t m = max;
    while (m) { bits++; m >>= 1; }
    int b = (int)vrn((uint64_t)bits + 1);
    uint64_t v = b >= 64 ? vr() : (vr() & ((1ull << b) - 1));
    return v > max ? max : v;
}
#define vpick(s) ((unsigned char)(s)[vrn(sizeof(s) - 1)])   /* one byte of a literal */
static inline void vrbytes(void *p, size_t n) { unsigned char *q = (unsigned char *)p; while (n--) *q++ = (unsigned char)(vr() >> 11); }

/* ---- output: one line per record, O_APPEND so that children may report too */
static VH_UNUSED void vh_emit(const char *tag, const char *fmt, va_list ap)
{
    char b[4096]; size_t k = (size_t)snprintf(b, sizeof b, "%s ", tag);
    int r = vsnprintf(b + k, sizeof b - k - 2, fmt, ap);
    size_t n = k + (r < 0 ? 0 : (size_t)r);
    if (n > sizeof b - 2) n = sizeof b - 2;
    for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)b[i]; if (c == '\n' || c == '\r') b[i] = ' '; else if (c < 32 || c > 126) b[i] = '?'; }
    b[n++] = '\n';
    if (write(vh_outfd, b, n) < 0) {}
}
static VH_UNUSED __attribute__((format(printf, 1, 2))) void vh_case(const char *fmt, ...)
{
    if (!vh_casebuf) return;
    va_list ap; va_start(ap, fmt);
    int k = snprintf(vh_casebuf, 64, "case %llu: ", (unsigned long long)vh_curcase);
    vsnprintf(vh_casebuf + k, VH_CASESZ - (size_t)k, fmt, ap); va_end(ap);
}
static VH_UNUSED __attribute__((format(printf, 1, 2))) void vh_case_add(const char *fmt, ...)
{
    if (!vh_casebuf) return;
    size_t k = strlen(vh_casebuf);
    if (k > VH_CASESZ - 256) { memmove(vh_casebuf + 1024, vh_casebuf + VH_CASESZ / 2, k - VH_CASESZ / 2 + 1); k = strlen(vh_casebuf); }
    va_list ap; va_start(ap, fmt); vsnprintf(vh_casebuf + k, VH_CASESZ - k, fmt, ap); va_end(ap);
}
static VH_UNUSED __attribute__((format(printf, 2, 3))) void vh_viol(const char *key, const char *fmt, ...)
{
    char k[160]; snprintf(k, sizeof k, "@V %s |", key);
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char c[2000]; snprintf(c, sizeof c, "%s || shard %llu %s", b, (unsigned long long)vh_shard, vh_casebuf ? vh_casebuf : "");
    struct { const char *k; } x = { k }; (void)x;
    char line[3900]; size_t n = (size_t)snprintf(line, sizeof line - 2, "%s %s", k, c);
    if (n > sizeof line - 2) n = sizeof line - 2;
    for (size_t i = 0; i < n; i++) { unsigned char ch = (unsigned char)line[i]; if (ch == '\n' || ch == '\r') line[i] = ' '; else if (ch < 32 || ch > 126) line[i] = '?'; }
    line[n++] = '\n';
    if (write(vh_outfd, line, n) < 0) {}
    if (__atomic_add_fetch(&vh_nviol, 1, __ATOMIC_RELAXED) > 40) _exit(78);
}
static VH_UNUSED __attribute__((format(printf, 1, 2))) void vh_sample(const char *fmt, ...)
{
    static int n; if (n++ >= 6) return;
    va_list ap; va_start(ap, fmt); vh_emit("@S", fmt, ap); va_end(ap);
}
static VH_UNUSED void vh_emitf(const char *tag, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); vh_emit(tag, fmt, ap); va_end(ap); }

/* named counters */
static struct { const char *n; uint64_t v; } vh_ctr[128] VH_UNUSED; static int vh_nctr VH_UNUSED;
static VH_UNUSED void vh_count(const char *name, uint64_t v)
{
    for (int i = 0; i < vh_nctr; i++) if (vh_ctr[i].n == name || !strcmp(vh_ctr[i].n, name)) { vh_ctr[i].v += v; return; }
    if (vh_nctr < 128) { vh_ctr[vh_nctr].n = name; vh_ctr[vh_nctr++].v = v; }
}
/* case signatures (set of 64-bit hashes) */
#define VH_SIGCAP (1u << 20)
static uint64_t *vh_sigs VH_UNUSED; static size_t vh_nsig VH_UNUSED;
static VH_UNUSED void vh_sig(uint64_t h)
{
    if (!h) h = 1;
    if (!vh_sigs) {
        void *m = mmap(0, VH_SIGCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) return; vh_sigs = (uint64_t *)m;
    }
    size_t i = vh_mix(h) & (VH_SIGCAP - 1);
    for (; vh_sigs[i]; i = (i + 1) & (VH_SIGCAP - 1)) if (vh_sigs[i] == h) return;
    if (vh_nsig > VH_SIGCAP / 2) return;
    vh_sigs[i] = h; vh_nsig++;
}
static inline uint64_t vh_h(uint64_t h, uint64_t v) { return vh_mix(h ^ (v * 0x9ddfea08eb382d69ull)); }
static VH_UNUSED uint64_t vh_hb(uint64_t h, const void *p, size_t n)
{ const unsigned char *q = (const unsigned char *)p; h = vh_h(h, n); while (n--) h = (h ^ *q++) * 0x100000001b3ull; return vh_mix(h); }

static VH_UNUSED void vh_init(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (!strncmp(a, "seed=", 5)) vh_seed = strtoull(a + 5, 0, 0);
        else if (!strncmp(a, "shard=", 6)) vh_shard = strtoull(a + 6, 0, 0);
        else if (!strncmp(a, "cases=", 6)) vh_cases = strtoull(a + 6, 0, 0);
        else if (!strncmp(a, "only=", 5)) vh_only = strtoull(a + 5, 0, 0);
        else if (!strncmp(a, "mode=", 5)) vh_mode = a + 5;
        else if (!strncmp(a, "thorough=", 9)) vh_thorough = atoi(a + 9);
        else if (!strncmp(a, "tmp=", 4)) snprintf(vh_tmp, sizeof vh_tmp, "%s", a + 4);
        else if (!strncmp(a, "out=", 4)) {
            int fd = open(a + 4, O_WRONLY | O_CREAT | O_APPEND, 0644);
            vh_outfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); if (vh_outfd < 0) vh_outfd = fd; else close(fd);
        } else if (!strncmp(a, "casefile=", 9)) {
            int fd = open(a + 9, O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, VH_CASESZ) == 0) {
                void *m = mmap(0, VH_CASESZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) vh_casebuf = (char *)m;
            }
            close(fd);
        }
    }
    if (!vh_casebuf) { static char b[VH_CASESZ]; vh_casebuf = b; }
}
/* seed the generator for case i; returns 0 if the case is to be skipped */
static VH_UNUSED int vh_begin(uint64_t i)
{
    vh_curcase = i;
    vh_rs = vh_mix(vh_mix(vh_seed * 1000003ull + vh_shard) ^ (i * 0xd1342543de82ef95ull));
    if (vh_only != ~0ull && vh_only != i) return 0;
    return 1;
}
static VH_UNUSED int vh_end(void)
{
    for (int i = 0; i < vh_nctr; i++) vh_emitf("@C", "%s %llu", vh_ctr[i].n, (unsigned long long)vh_ctr[i].v);
    if (vh_sigs) {
        char b[2048]; size_t k = 0;
        for (size_t i = 0; i < VH_SIGCAP; i++) if (vh_sigs[i]) {
            if (!k) k = (size_t)snprintf(b, sizeof b, "@D");
            k += (size_t)snprintf(b + k, sizeof b - k, " %llx", (unsigned long long)vh_sigs[i]);
            if (k > 1900) { b[k++] = '\n'; if (write(vh_outfd, b, k) < 0) {} k = 0; }
        }
        if (k) { b[k++] = '\n'; if (write(vh_outfd, b, k) < 0) {} }
    }
    vh_emitf("@E", "done");
    return vh_nviol ? 77 : 0;
}
/* hex of a byte string for reports */
static VH_UNUSED const char *vh_hex(const void *p, size_t n)
{
    static char b[4][600]; static int w; char *o = b[w++ & 3]; const unsigned char *q = (const unsigned char *)p;
    size_t m = n > 280 ? 280 : n, i; for (i = 0; i < m; i++) snprintf(o + 2 * i, 3, "%02x", q[i]);
    snprintf(o + 2 * m, 8, "%s", n > m ? "..." : ""); return o;
}
/* printable form (C escapes) for reports */
static VH_UNUSED const char *vh_str(const void *p, size_t n)
{
    static char b[6][1200]; static int w; char *o = b[w++ % 6]; const unsigned char *q = (const unsigned char *)p; size_t k = 0;
    for (size_t i = 0; i < n && k < 1180; i++) {
        if (q[i] >= 32 && q[i] < 127 && q[i] != '\\') o[k++] = (char)q[i];
        else k += (size_t)snprintf(o + k, 8, "\\x%02x", q[i]);
    }
    o[k] = 0; return o;
}
/* exactly-sized heap copy, so that ASan sees one byte too many */
static VH_UNUSED void *vh_dup(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
static VH_UNUSED char *vh_dups(const char *s) { return (char *)vh_dup(s, strlen(s) + 1); }

/* run fn in a child; returns wait status (so that exit/abort/signals can be observed) */
static VH_UNUSED int vh_fork(void (*fn)(void *), void *arg)
{
    fflush(0);
    pid_t p = fork();
    if (p == 0) { fn(arg); _exit(0); }
    int st = -1;
    if (p > 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    return st;
}
#endif

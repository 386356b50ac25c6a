/* C58: secrets do not outlive their use. The process's own writable memory is searched for what was typed, for the entropy the
 * random generator took, and for what it already gave out. The harness keeps its copies encoded, so a hit is a copy the library left. */
#include "vh.h"
#include <stdio_ext.h>
#include <sys/mman.h>
#include "utils/readpass.h"
#include "utils/arc4random.h"
#define ENC 0x5A
typedef unsigned char u8;
/* encoded secrets, in memory of their own */
enum { MAXN = 4096, NL = 64 };
typedef struct need { u8 e[NL]; int n; const char *what; } need;
static need *N; static int nn; static u8 *scratch;
static void wipe(volatile u8 *p, size_t n) { while (n--) *p++ = 0; }
static void keep(const u8 *p, int n, const char *what) { if (nn >= MAXN) return; need *x = &N[nn++]; if (n > NL) n = NL; for (int i = 0; i < n; i++) x->e[i] = ((const volatile u8 *)p)[i] ^ ENC; x->n = n; x->what = what; }
static int armed, ngot;
int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *b, size_t n) { int r = __real_getentropy(b, n); if (armed && !r && n >= 32) { keep(b, (int)n, "seed"); ngot++; } return r; }
/* search [a, b) for every secret; returns the first hit */
static size_t scanned;
static need *search(const u8 *a, const u8 *b, char only)
{
    static unsigned short idx[65536 + 1], list[MAXN]; memset(idx, 0, sizeof idx); for (int i = 0; i < nn; i++) idx[(N[i].e[0] ^ ENC) | (N[i].e[1] ^ ENC) << 8]++; for (int i = 0, s = 0; i <= 65536; i++) { int c = idx[i]; idx[i] = (unsigned short)s; s += c; }
    static unsigned short at[65536]; memcpy(at, idx, sizeof at); for (int i = 0; i < nn; i++) list[at[(N[i].e[0] ^ ENC) | (N[i].e[1] ^ ENC) << 8]++] = (unsigned short)i;
    scanned += (size_t)(b - a);
    for (const u8 *p = a; p + 40 < b; p++) { int k = p[0] | p[1] << 8; for (int q = idx[k]; q < idx[k + 1]; q++) { need *x = &N[list[q]]; int i = 2; if (p + x->n > b) continue; while (i < x->n && p[i] == (u8)(x->e[i] ^ ENC)) i++; if (i == x->n && (!only || *x->what == only)) return x; } }
    return 0;
}
/* the stack as the library left it, copied before anything else is called */
enum { DEEP = 48 << 10 }; static volatile u8 *snap;
#define SNAP() do { volatile u8 *f_ = (volatile u8 *)__builtin_frame_address(0) - DEEP; for (int i_ = 0; i_ < DEEP; i_++) snap[i_] = f_[i_]; } while (0)
static need *everywhere(int stackonly, char *where, size_t wn)
{
    static char maps[1 << 18]; int fd = open("/proc/self/maps", O_RDONLY); size_t l = 0; ssize_t k; while ((k = read(fd, maps + l, sizeof maps - 1 - l)) > 0) l += (size_t)k; close(fd); maps[l] = 0;
    need *y = search((const u8 *)snap, (const u8 *)snap + DEEP, stackonly ? 0 : 's'); if (y) { snprintf(where, wn, "the stack"); return y; }
    for (char *p = maps, *e; *p; p = e + 1) {
        e = strchr(p, '\n'); if (!e) break; *e = 0; unsigned long a, b; char pr[8]; int o = 0; if (sscanf(p, "%lx-%lx %7s %*s %*s %*s %n", &a, &b, pr, &o) < 3 || pr[0] != 'r' || pr[1] != 'w') continue;
        const char *nm = o ? p + o : ""; if (stackonly && !strstr(nm, "[stack]")) continue; if (strstr(nm, "[v") || b - a > 64u << 20) continue;
        if ((u8 *)(uintptr_t)a <= (u8 *)snap && (u8 *)snap < (u8 *)(uintptr_t)b) continue;
        need *x = search((const u8 *)a, (const u8 *)b, !stackonly && strstr(nm, "[stack]") ? 's' : 0); if (x) { snprintf(where, wn, "%s", *nm ? nm : "anonymous memory"); return x; }
    }
    return 0;
}
static void letters(u8 *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (u8)(33 + vrn(94)); }
__attribute__((noinline)) static int readit(char **pw, int confirm) { return portable_readpass(pw, "Pass", confirm ? "Again" : 0, 0); }
/* the stack below this call is left as it is: only raw system calls between the reading and the search */
static void password(void)
{
    int confirm = vrp(50), how = (int)vrn(4), pairs = confirm ? (how == 0 ? 3 : how == 1 ? 2 : 1) : 1, cut = how == 3, lines = 0, pp[2]; size_t len = vrp(20) ? 2000 + vrn(100) : vrp(20) ? 500 + vrn(900) : 40 + vrn(60); nn = 0;
    vh_case("password of %zu characters%s%s", len, confirm ? how == 0 ? ", never confirmed" : how == 1 ? ", confirmed the second time" : ", confirmed" : "", cut && confirm ? ", end of input instead of the confirmation" : ""); if (pipe(pp)) vh_emitf("@X", "pipe"); fcntl(pp[1], F_SETPIPE_SZ, 1 << 16);
    for (int i = 0; i < pairs; i++) {
        letters(scratch, len); scratch[len] = '\n'; size_t off = len > 200 ? vrn(len < 2000 ? len - 60 : 1900) : 0; keep(scratch + off, 40, "password"); if (write(pp[1], scratch, len + 1) < 0) vh_emitf("@X", "pipe"); lines++;
        if (confirm && !cut) { if (how == 0 || (how == 1 && i == 0)) { scratch[vrn(len < 2000 ? len : 1900)] ^= 1; scratch[3] ^= 2; keep(scratch + off, 40, "confirmation"); } if (write(pp[1], scratch, len + 1) < 0) vh_emitf("@X", "pipe"); lines++; }
    }
    wipe(scratch, len + 2); close(pp[1]); dup2(pp[0], 0); close(pp[0]); clearerr(stdin); __fpurge(stdin); int e2 = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
    char *pw = 0; int r = readit(&pw, confirm); SNAP(); char where[200]; need *x = everywhere(1, where, sizeof where); dup2(e2, 2); close(e2);
    if (len < 2040 && confirm && (how == 0 || cut) ? r >= 0 : len < 2040 && r != 0) vh_viol("wipe:result", "reading returned %d", r);
    if (x) vh_viol("wipe:password", "a copy of the %s stays on the stack after reading returned %d", x->what, r); vh_count(r ? "refused_passwords" : "passwords", 1); if (r == 0) free(pw);
}
__attribute__((noinline)) static void draw(size_t *total, size_t want, uint64_t *s, int big)
{
    while (*total < want) { *s = vh_mix(*s); size_t k = big && nn > 3000 && want - *total > 40000 ? 30000 : 40 + *s % 400; arc4random_buf(scratch, k); if (nn < MAXN - 100 && k < 30000 && !(big && nn > 3000 && want - *total > 9000)) { keep(scratch, 40, "output"); if (k > 100) keep(scratch + k - 44, 40, "output"); } wipe(scratch, k); *total += k; *s = vh_mix(*s); if (*s % 5 == 0) (void)arc4random(); }
    if (*s % 3 == 0) (void)arc4random();
}
/* the generator: in a process of its own, so that it starts afresh */
static void generator(void)
{
    nn = 0; uint64_t s = vr(); int big = vrp(30), few = !big && vrp(60); vh_case("generator drawn on %s", few ? "for a few bytes" : big ? "past its reseeding" : "for a few kilobytes"); struct { int hit, seed, ngot, nn; size_t scanned; char where[120]; } rep; int rp[2]; if (pipe(rp)) vh_emitf("@X", "pipe"); fflush(0);
    pid_t pid = fork();
    if (!pid) {
        close(rp[0]); memset(&rep, 0, sizeof rep); armed = 1; ngot = 0; scanned = 0; alarm(60); size_t total = 0, want = big ? 4000000 : 3000 + s % 20000;
        if (few) want = 1 + s % 200; draw(&total, want, &s, big);
        SNAP(); armed = 0; need *x = everywhere(0, rep.where, sizeof rep.where); rep.hit = x ? 1 : 0; rep.seed = x && x->what[0] == 's'; rep.ngot = ngot; rep.nn = nn; rep.scanned = scanned; if (write(rp[1], &rep, sizeof rep) < 0) _exit(1); _exit(0);
    }
    close(rp[1]); ssize_t k = read(rp[0], &rep, sizeof rep); close(rp[0]); int st; waitpid(pid, &st, 0); if (k != (ssize_t)sizeof rep) { vh_viol("wipe:died", "the generator's process died (status %#x)", st); return; }
    if (rep.hit) vh_viol(rep.seed ? "wipe:seed" : "wipe:output", "%s stays in %s after %d seeds and %d outputs", rep.seed ? "a seed" : "bytes given out before", rep.where, rep.ngot, rep.nn); vh_count("generators", 1); vh_count("seeds", (uint64_t)rep.ngot); vh_count("outputs", (uint64_t)(rep.nn - rep.ngot)); vh_count("megabytes_searched", rep.scanned >> 20);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); N = mmap(0, sizeof(need) * MAXN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); scratch = malloc(1 << 16); snap = mmap(0, DEEP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mprotect((void *)snap, DEEP, PROT_READ | PROT_WRITE)) return 9;
    for (uint64_t c = 0; c < vh_cases; c++) { if (!vh_begin(c)) continue; uint64_t sig; if (c & 1) password(); else generator(); sig = vh_hb(c, vh_casebuf, strlen(vh_casebuf)); vh_count("evals", 1); vh_sig(sig); if (c < 4) vh_sample("%s", vh_casebuf); if (vh_nviol) break; }
    return vh_end();
}

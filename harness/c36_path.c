/* C36: mkdirhier against an independent descriptor-based walk on an identical tree, with concurrent creators injected; dirname against the POSIX rule */
#include "vh.h"
#include <dirent.h>
#include <pthread.h>
#include "utils/mkdirhier.h"
extern const char *dirname(char *buf, size_t bsize, const char *path);
int __real_mkdir(const char *, mode_t); int __real_stat(const char *, struct stat *);
static int inj, racep, failat, failerr, nmk, raced, failed; static __thread unsigned jit;
int __wrap_mkdir(const char *p, mode_t m)
{
    if (inj == 2) { jit = jit * 1103515245 + 12345; if (jit >> 20 & 1) usleep(jit >> 22 & 63); return __real_mkdir(p, m); }
    struct stat ls; if (inj && *p && lstat(p, &ls) && errno == ENOENT && ++nmk == failat) { failed = 1; errno = failerr; return -1; }
    if (inj && racep && vrp(racep)) { raced++; int e = __real_mkdir(p, m); (void)e; }   /* another creator gets there first */
    return __real_mkdir(p, m);
}
static void rmtree(int dfd, const char *name)
{
    if (!unlinkat(dfd, name, 0)) return; fchmodat(dfd, name, 0700, 0); int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return; DIR *d = fdopendir(fd); struct dirent *e;
    for (int go = 1; go;) { rewinddir(d); go = 0; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { rmtree(fd, e->d_name); go = 1; break; } } closedir(d); unlinkat(dfd, name, AT_REMOVEDIR);
}
static int difftree(int a, int b, char *why)
{   /* both directories hold the same names, types and modes */
    DIR *d = fdopendir(dup(a)); rewinddir(d); struct dirent *e; int bad = 0, n = 0, n2 = 0; while (!bad && (e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; n++; struct stat x, y; fstatat(a, e->d_name, &x, AT_SYMLINK_NOFOLLOW); if (fstatat(b, e->d_name, &y, AT_SYMLINK_NOFOLLOW)) { snprintf(why, 300, "'%.100s' was created", e->d_name); bad = 1; break; } if (x.st_mode != y.st_mode) { snprintf(why, 300, "'%.100s' has mode %o, expected %o", e->d_name, x.st_mode, y.st_mode); bad = 1; break; }
        if (S_ISDIR(x.st_mode)) { fchmodat(a, e->d_name, 0700, 0); fchmodat(b, e->d_name, 0700, 0); int p = openat(a, e->d_name, O_RDONLY | O_DIRECTORY), q = openat(b, e->d_name, O_RDONLY | O_DIRECTORY); if (p >= 0 && q >= 0) bad = difftree(p, q, why); if (p >= 0) close(p); if (q >= 0) close(q); } } closedir(d);
    d = fdopendir(dup(b)); rewinddir(d); while ((e = readdir(d))) n2 += strcmp(e->d_name, ".") && strcmp(e->d_name, ".."); closedir(d); if (!bad && n != n2) { snprintf(why, 300, "%d entries, expected %d", n, n2); bad = 1; } return bad;
}
static int model(int root, const char *path, mode_t mode, int maxmk)
{   /* create and enter one component after the other; at most maxmk new directories */
    if (!*path) return ENOENT; int fd = dup(root); char c[300]; const char *p = path;
    for (;;) {
        while (*p == '/') p++; if (!*p) break; const char *e = strchr(p, '/'); size_t l = e ? (size_t)(e - p) : strlen(p); if (l > 255) { close(fd); return ENAMETOOLONG; } memcpy(c, p, l); c[l] = 0; p += l; struct stat st;
        if (fstatat(fd, c, &st, 0)) { int er = errno; if (er != ENOENT) { close(fd); return er; } if (maxmk-- == 0) { close(fd); return -1; } if (mkdirat(fd, c, mode)) { er = errno; close(fd); return er; } }
        else if (!S_ISDIR(st.st_mode)) { close(fd); return ENOTDIR; }
        int rest = 0; for (const char *q = p; *q; q++) if (*q != '/') rest = 1; if (!rest) break; int n = openat(fd, c, O_PATH | O_DIRECTORY); int er = errno; close(fd); if (n < 0) return er; fd = n;
    }
    close(fd); return 0;
}
static const char *comp(void) { static const char *w[] = { "a", "b", "c", "d", "file", "link", "dangling", "..", ".", "loop", "locked", "new", "Some Name", "\xc3\xa9" }; return w[vrn(14)]; }
static int depth_of_dots(const char *p) { int d = 0, mn = 0; while (*p) { while (*p == '/') p++; if (!*p) break; size_t l = strcspn(p, "/"); if (l == 2 && p[0] == '.' && p[1] == '.') d--; else if (!(l == 1 && *p == '.')) d++; if (d < mn) mn = d; p += l; } return mn; }
static void populate(int fd, uint64_t bits) { static const char *dn[] = { "a", "b", "a/b", "b/c", "c", "a/b/c" }; for (int i = 0; i < 6; i++) if (bits >> i & 1) mkdirat(fd, dn[i], 0755); int f = openat(fd, "file", O_CREAT | O_WRONLY, 0644); close(f); if (bits >> 6 & 1) { f = openat(fd, "a/file", O_CREAT | O_WRONLY, 0644); if (f >= 0) close(f); } if (symlinkat("a", fd, "link") || symlinkat("nowhere/x", fd, "dangling") || symlinkat("loop", fd, "loop")) {} mkdirat(fd, "locked", 0755); if (bits >> 7 & 1) fchmodat(fd, "locked", 0500, 0); }
static uint64_t hier(void)
{
    mkdir("A", 0755); mkdir("B", 0755); int A = open("A", O_RDONLY | O_DIRECTORY), B = open("B", O_RDONLY | O_DIRECTORY); uint64_t bits = vr(); populate(A, bits); populate(B, bits);
    char path[9000]; size_t n = 0; int k = vrp(2) ? 0 : 1 + (int)vrn(6), abs = vrp(25); char pre[600]; if (!getcwd(pre, 500)) pre[0] = 0; if (abs) strcat(pre, "/A");
    for (int i = 0; i < k; i++) { if (i) { path[n++] = '/'; while (vrp(12)) path[n++] = '/'; } if (vrp(3)) { size_t l = 250 + vrn(10); memset(path + n, 'L', l); n += l; } else n += (size_t)sprintf(path + n, "%s", comp()); } if (k && vrp(20)) { path[n++] = '/'; while (vrp(30)) path[n++] = '/'; } path[n] = 0;
    if (depth_of_dots(path) < 0) { strcpy(path, "q"); n = 1; } char full[10000]; if (abs) snprintf(full, sizeof full, "%s/%s%s", pre, vrp(10) ? "//" : "", path); else strcpy(full, path);
    if (vrp(5) && *full && !abs) { size_t want = 4085 + vrn(25), l = strlen(full), q = 0; char t[10000]; while (q + 2 + l <= want) { t[q++] = '.'; t[q++] = '/'; } while (q + l < want && q) t[q++] = '/'; strcpy(t + q, full); strcpy(full, t); }
    mode_t mode = (mode_t)(int[]){ 0755, 0700, 0777, 0711, 0775, 0500, 0750 }[vrp(80) ? vrn(5) : vrn(7)], um = (mode_t)(int[]){ 0, 022, 077, 027 }[vrn(4)]; racep = vrp(30) ? 60 : 0; failat = vrp(12) ? 1 + (int)vrn(4) : 0; failerr = vrp(50) ? ENOSPC : EROFS; failed = raced = nmk = 0; size_t fl = strlen(full);
    vh_case("mkdirhier('%.300s' (%zu), %o) umask %o%s%s tree %llx", full, fl, mode, um, racep ? " with concurrent creators" : "", failat ? " with a failing mkdir" : "", (unsigned long long)(bits & 0xff)); umask(um); char *px = vh_dups(full); if (!abs && fchdir(A)) vh_emitf("@X", "fchdir"); inj = 1; errno = 0; int r = mkdirhier(px, mode); int er = errno; inj = 0; if (!abs && chdir("..")) {} free(px);
    int m; if (fl >= 4096) m = ENAMETOOLONG; else { char *mp = abs ? full + strlen(pre) + 1 : full; m = model(B, mp, mode, failed ? failat - 1 : 1000); if (abs && !*mp) m = 0; } umask(022); if (m == -1) m = failerr;
    int got = r < 0 ? (r == -1 && er != EPERM ? er : -r) : 0, same = (got != 0) == (m != 0); char why[400]; (void)er;
    if (r > 0) vh_viol("mkdirhier:result", "returned %d", r);
    if (!same) vh_viol("mkdirhier:result", "returned %d, expected %s%s", r, m ? "error " : "success", m ? strerror(m) : "");
    else if (m && got != m && !((m == ENOTDIR || m == ENOENT || m == ELOOP) && (got == EEXIST || got == ENOTDIR))) vh_viol("mkdirhier:errno", "error %d, expected %d", got, m);
    else if (difftree(A, B, why)) vh_viol("mkdirhier:tree", "%s (result %d)", why, r);
    vh_count(m ? "refused" : "created", 1); if (raced) vh_count("raced", 1); if (failed) vh_count("failed_mkdir", 1); uint64_t s = vh_h(vh_hb(3, full, fl), mode + (bits & 0xff) * 1000 + um); close(A); close(B); rmtree(AT_FDCWD, "A"); rmtree(AT_FDCWD, "B"); return s;
}
static char cpath[200]; static int cres[8]; static void *creator(void *a) { jit = (unsigned)(uintptr_t)a * 7919 + 13; cres[(uintptr_t)a] = mkdirhier(cpath, 0755); return 0; }
static uint64_t concurrent(void)
{
    size_t n = (size_t)sprintf(cpath, "C"); int k = 2 + (int)vrn(12); for (int i = 0; i < k; i++) n += (size_t)sprintf(cpath + n, "/%c%d", 'a' + (int)vrn(26), i); if (vrp(30)) strcat(cpath, "/"); vh_case("%s by 4 threads", cpath); pthread_t t[4]; inj = 2; for (uintptr_t i = 0; i < 4; i++) pthread_create(&t[i], 0, creator, (void *)i); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); inj = 0;
    for (int i = 0; i < 4; i++) if (cres[i]) vh_viol("mkdirhier:concurrent", "one of four concurrent creators of '%s' returned %d", cpath, cres[i]); struct stat s; if (stat(cpath, &s) || !S_ISDIR(s.st_mode)) vh_viol("mkdirhier:concurrent", "'%s' is not there", cpath); rmtree(AT_FDCWD, "C"); vh_count("concurrent", 1); return vh_hb(9, cpath, strlen(cpath));
}
static uint64_t dn(void)
{
    char p[200]; size_t n = vrp(4) ? 0 : 1 + vrn(vrp(80) ? 10 : 150); for (size_t i = 0; i < n; i++) p[i] = (char)(vrp(45) ? '/' : vrp(90) ? 'a' + vrn(3) : vpick(". \xff")); p[n] = 0; size_t bs = vrp(70) ? n + 1 + vrn(3) : vrn(n + 3);
    char w[210]; strcpy(w, p); size_t l = n; while (l && w[l - 1] == '/') l--; while (l && w[l - 1] != '/') l--; while (l && w[l - 1] == '/') l--; w[l] = 0; if (!l) strcpy(w, *p == '/' ? "/" : ".");
    char *b = malloc(bs + !bs), *px = vh_dups(p); memset(b, 0xA5, bs + !bs); vh_case("dirname('%s', buffer %zu)", p, bs); const char *r = dirname(b, bs, px);
    if (strcmp(px, p)) vh_viol("dirname:input", "input modified"); int fits = bs >= n + 1 && bs >= 2; if (!r) { if (fits) vh_viol("dirname:refused", "refused though %zu bytes suffice", bs); vh_count("dirname_refused", 1); } else if (!fits && bs < strlen(w) + 1) vh_viol("dirname:accepted", "result does not fit"); else if (r != b || strcmp(r, w)) vh_viol("dirname:value", "gave '%s', expected '%s'", r, w); else vh_count("dirnames", 1);
    free(b); free(px); return vh_h(vh_hb(5, p, n), bs);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (geteuid() == 0) vh_emitf("@X", "must not run as root"); if (chdir(vh_tmp)) { vh_emitf("@X", "scratch"); return vh_end(); }
    for (uint64_t c = 0; c < vh_cases; c++) { if (!vh_begin(c)) continue; uint64_t s = vrp(40) ? dn() : vrp(92) ? hier() : concurrent(); vh_count("evals", 1); vh_sig(s); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break; }
    return vh_end();
}

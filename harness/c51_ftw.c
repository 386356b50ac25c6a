/* C51: ftw over random trees against an independent recursive walk. Runs unprivileged, inside its scratch directory only. */
#include "vh.h"
#include <dirent.h>
#include <ftw.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>

/* expected visits */
struct ent { char *path; int type, seen, dnr; struct stat st; int order, parent, kids_done; };
static struct ent *E; static int nE, capE;
static int add(const char *path, int type, const struct stat *st, int parent)
{
    if (nE == capE) { capE = capE ? capE * 2 : 64; E = realloc(E, (size_t)capE * sizeof *E); }
    memset(&E[nE], 0, sizeof E[0]);
    E[nE].path = strdup(path); E[nE].type = type; if (st) E[nE].st = *st; E[nE].parent = parent; E[nE].order = -1;
    return nE++;
}
static void expect(const char *path, int root, int parent, int depth)
{
    struct stat st; int r = root ? stat(path, &st) : lstat(path, &st);
    if (r) { add(path, FTW_NS, 0, parent); return; }
    if (S_ISDIR(st.st_mode)) {
        int me = add(path, FTW_D, &st, parent);
        DIR *d = opendir(path); struct dirent *e; char p[8000];
        if (!d) { E[me].dnr = 1; return; }
        while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; size_t l = strlen(path); snprintf(p, sizeof p, "%s%s%s", path, l && path[l - 1] == '/' ? "" : "/", e->d_name); expect(p, 0, me, depth + 1); }
        closedir(d);
    } else add(path, S_ISLNK(st.st_mode) ? FTW_SL : FTW_F, &st, parent);
}
/* allocation faults inside the library */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static long mfail, mcount, mfailed; static int marm;
static int mf(void) { if (!marm || !mfail || ++mcount < mfail) return 0; mfailed++; errno = ENOMEM; return 1; }
void *__wrap_malloc(size_t n) { return mf() ? 0 : __real_malloc(n); } void *__wrap_calloc(size_t a, size_t b) { return mf() ? 0 : __real_calloc(a, b); } void *__wrap_realloc(void *p, size_t n) { return mf() ? 0 : __real_realloc(p, n); }
/* what is observed */
static int ncall, stop_at, stop_val, bad, nerr;
static int cb(const char *path, const struct stat *st, int flag)
{
    ncall++; int i, k = -1;
    for (i = 0; i < nE; i++) if (!strcmp(E[i].path, path)) { k = i; break; }
    if (bad) ;
    else if (k < 0) { bad = 1; vh_viol("ftw:unknown", "visited '%.200s', which is not in the tree", path); }
    else if (flag == FTW_DNR) {
        if (!E[k].dnr || E[k].seen > 1) { bad = 1; vh_viol("ftw:unreadable", "'%.200s' reported as unreadable (visited %d times)", path, E[k].seen); }
        E[k].dnr = 2;
    } else {
        if (E[k].seen++) { bad = 1; vh_viol("ftw:twice", "'%.200s' visited twice", path); }
        else if (flag != E[k].type) { bad = 1; vh_viol("ftw:type", "'%.200s' reported as type %d, it is %d", path, flag, E[k].type); }
        else if (E[k].parent >= 0 && !E[E[k].parent].seen) { bad = 1; vh_viol("ftw:order", "'%.200s' visited before its directory", path); }
        else if (flag != FTW_NS && (!st || st->st_ino != E[k].st.st_ino || st->st_mode != E[k].st.st_mode || st->st_size != E[k].st.st_size || st->st_dev != E[k].st.st_dev || st->st_nlink != E[k].st.st_nlink || st->st_uid != E[k].st.st_uid))
            { bad = 1; vh_viol("ftw:stat", "status of '%.200s' is not that of the file", path); }
        E[k].order = ncall;
        if (k >= 0 && E[k].parent >= 0) {   /* a directory's subtree is visited in one piece */
            for (int p = E[k].parent; p >= 0; p = E[p].parent) if (E[p].kids_done) { bad = 1; vh_viol("ftw:piece", "'%.200s' visited after its directory '%.100s' was left", path, E[p].path); break; }
        }
        if (k >= 0) for (i = 0; i < nE; i++) if (E[i].seen && !E[i].kids_done && E[i].type == FTW_D && i != k) { int a = E[k].parent; while (a >= 0 && a != i) a = E[a].parent; if (a != i) E[i].kids_done = 1; }
    }
    if (stop_at && ncall == stop_at) { errno = 1234; return stop_val; }
    return 0;
}
static void rmtree(int dfd, const char *name)
{
    if (!unlinkat(dfd, name, 0)) return;
    fchmodat(dfd, name, 0700, 0); int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return;
    DIR *d = fdopendir(fd); struct dirent *e;
    for (int go = 1; go;) { rewinddir(d); go = 0; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { rmtree(fd, e->d_name); go = 1; break; } }
    closedir(d); unlinkat(dfd, name, AT_REMOVEDIR);
}
static uint64_t sigv; static int nmade, nlocked, nlinks, nfifo;
static void grow(int fd, int depth, int budget)
{
    int n = (int)vrn(depth ? 5 : 8); char nm[300]; static const char *w[] = { "a", "b", ".hidden", "Some File", "\xc3\xa9", "...", "x%s", "~", "-", "\n" };
    for (int i = 0; i < n && nmade < budget; i++) {
        snprintf(nm, sizeof nm, "%s%d", w[vrn(10)], i); if (vrp(4)) { memset(nm, 'N', 254); nm[254] = (char)('0' + i); nm[255] = 0; }
        nmade++; uint64_t k = vrn(12); sigv = vh_h(sigv, k * 16 + depth);
        if (k < 4 && depth < 6) { if (mkdirat(fd, nm, 0755)) continue; int s = openat(fd, nm, O_RDONLY | O_DIRECTORY); grow(s, depth + 1, budget); close(s); if (vrp(12)) { nlocked++; fchmodat(fd, nm, (mode_t)(int[]){ 0, 0100, 0300, 0400 }[vrn(4)], 0); } }
        else if (k < 8) { int f = openat(fd, nm, O_CREAT | O_WRONLY | O_EXCL, 0644); if (f >= 0) { if (write(f, "x", vrn(2)) < 0) {} close(f); } }
        else if (k < 11) { nlinks++; static const char *t[] = { "..", ".", "nowhere", "/", "a0", "b1/x", "/etc/passwd" }; if (symlinkat(t[vrn(7)], fd, nm)) {} }
        else { nfifo++; if (mkfifoat(fd, nm, 0600)) {} }
    }
}
static int openfds(void) { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (chdir(vh_tmp)) { vh_emitf("@X", "no scratch"); return vh_end(); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        sigv = 51; nmade = nlocked = nlinks = nfifo = 0; mkdir("T", 0755); int fd = open("T", O_RDONLY | O_DIRECTORY); grow(fd, 0, 3 + (int)vrn(60)); close(fd);
        const char *root = "T"; char ab[600]; int rk = (int)vrn(9);
        if (rk == 1) root = "./T"; else if (rk == 2) root = "T/"; else if (rk == 3) { if (getcwd(ab, 500)) strcat(ab, "/T"); root = ab; } else if (rk == 4) { if (symlink("T", "L")) {} root = "L"; } else if (rk == 5) { close(open("F", O_CREAT | O_WRONLY, 0644)); root = "F"; } else if (rk == 6 && vrp(30)) root = "missing"; else if (rk == 7 && vrp(30)) { if (symlink("nowhere", "L")) {} root = "L"; }
        expect(root, 1, -1, 0); if (rk == 7 && !strcmp(root, "L")) { E[0].type = FTW_NS; }
        stop_at = vrp(25) ? 1 + (int)vrn((uint64_t)nE) : 0; stop_val = (int[]){ 1, -1, 42, -7, 1 << 30 }[vrn(5)]; ncall = bad = 0;
        int nf = (int)vrn(3) ? 1 + (int)vrn(30) : 1; vh_case("ftw('%s', %d) over %d entries (%d unreadable, %d links, %d fifos), stop at %d with %d", root == ab ? "absolute" : root, nf, nE, nlocked, nlinks, nfifo, stop_at, stop_val);
        char cwd0[600] = "", cwd1[600] = ""; if (!getcwd(cwd0, 600)) {} int f0 = openfds(); char *rp = vh_dups(root); mfail = vrp(8) ? 1 + (long)vrn(vrp(50) ? 6 : 80) : 0; mcount = mfailed = 0; if (mfail) vh_case_add(", allocation %ld fails", mfail); marm = 1; errno = 0; int r = ftw(rp, cb, nf), er = errno; marm = 0; int f1 = openfds(); if (!getcwd(cwd1, 600)) {}
        free(rp);
        int exp = stop_at && ncall >= stop_at ? stop_val : 0, ndnr = 0;
        if (f1 != f0) vh_viol("ftw:descriptors", "%d descriptors are open after the walk, %d before", f1, f0);
        if (strcmp(cwd0, cwd1)) vh_viol("ftw:cwd", "the walk changed the working directory");
        if (mfailed) { vh_count("faulted", 1); if (exp == 0 && r != 0) { if (r != -1 || er != ENOMEM) vh_viol("ftw:fault", "returned %d with errno %d when memory ran out", r, er); exp = r; } }
        if (!bad && exp && stop_at && ncall == stop_at && er != 1234) vh_viol("ftw:errno", "errno %d after the callback set %d", er, 1234);
        if (!bad && r != exp) vh_viol("ftw:result", "returned %d, expected %d (after %d calls)", r, exp, ncall);
        if (!bad && stop_at && ncall > stop_at) vh_viol("ftw:continued", "the walk went on after the callback returned %d", stop_val);
        if (!bad && !exp) for (int i = 0; i < nE; i++) { if (!E[i].seen) { vh_viol("ftw:missed", "'%.200s' was not visited", E[i].path); break; } if (E[i].dnr == 1) { vh_viol("ftw:unreadable", "'%.200s' cannot be read and that was not reported", E[i].path); break; } ndnr += E[i].dnr == 2; }
        if (c % 50 == 0) { ncall = 0; errno = 0; if (ftw("", cb, 1) != -1 || errno != ENOENT || ncall) vh_viol("ftw:empty", "an empty path was accepted"); }
        if (stop_at && ncall == stop_at) vh_count("stopped", 1); else vh_count("complete", 1);
        vh_count("visits", (uint64_t)ncall); vh_count("unreadable", (uint64_t)ndnr); vh_count("links", (uint64_t)nlinks); vh_count("fifos", (uint64_t)nfifo);
        for (int i = 0; i < nE; i++) free(E[i].path);
        nE = 0;
        rmtree(AT_FDCWD, "T"); unlink("L"); unlink("F"); vh_count("evals", 1); vh_sig(vh_h(vh_h(sigv, (uint64_t)rk), (uint64_t)stop_at)); if (c < 4) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    free(E); return vh_end();
}

/* C31: directory traversal judged by an independent walk with openat/readdir/fstatat.
 * Runs unprivileged, inside its scratch directory only. */
#include "vh.h"
#include <dirent.h>
#include "fts.h"
static int fdc(void) { int n = 0; for (int i = 0; i < 800; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
/* allocator faults inside the traversal */
static int basefd, nmoved; static long mfail, min_fts; void *__real_malloc(size_t); void *__real_realloc(void *, size_t); static int mfailed;
void *__wrap_malloc(size_t n) { if (min_fts && mfail && --mfail == 0) { mfailed = 1; errno = ENOMEM; return 0; } return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (min_fts && mfail && --mfail == 0) { mfailed = 1; errno = ENOMEM; return 0; } return __real_realloc(p, n); }
/* descriptors for "." may be refused */
static int ofail, cfail, ofailed; int __real_open(const char *, int, ...); int __real_fcntl(int, int, ...);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (min_fts && ofail && !strcmp(p, ".")) { ofail = 0; ofailed = 1; errno = EMFILE; return -1; } return __real_open(p, f, m); }
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long m = va_arg(a, long); va_end(a); if (min_fts && cfail && c == F_SETFD) { cfail = 0; ofailed = 1; errno = EMFILE; return -1; } return __real_fcntl(fd, c, m); }
/* directories of the other file system may carry the inode number of the tree's root: only device and inode together name a file */
static dev_t shmdev; static ino_t fakeino; static void remap(struct stat *s) { if (fakeino && s->st_dev == shmdev && S_ISDIR(s->st_mode)) s->st_ino = fakeino; }
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_fstat(int, struct stat *); int __real_fstatat(int, const char *, struct stat *, int);
int __wrap_stat(const char *p, struct stat *s) { int r = __real_stat(p, s); if (!r) remap(s); return r; }
int __wrap_lstat(const char *p, struct stat *s) { int r = __real_lstat(p, s); if (!r) remap(s); return r; }
int __wrap_fstat(int f, struct stat *s) { int r = __real_fstat(f, s); if (!r) remap(s); return r; }
int __wrap_fstatat(int d, const char *p, struct stat *s, int fl) { int r = __real_fstatat(d, p, s, fl); if (!r) remap(s); return r; }
static int compares;
static int asc(const FTSENT **a, const FTSENT **b) { compares++; return strcmp((*a)->fts_name, (*b)->fts_name); }
static int desc(const FTSENT **a, const FTSENT **b) { compares++; return strcmp((*b)->fts_name, (*a)->fts_name); }
static FTS *S; static int opt, order, stopped, quick_close; static uint64_t sig; static long events, maxev, uniq; static int acts, infollow; static dev_t rootdev; static int rootdev_known; static char scratch[300];
typedef struct tr { char name[256]; struct stat st; int err, lerr, islnk; int gone, skip, fol; } tr;   /* truth about one entry */
static FTSENT *rd(void) { min_fts = 1; errno = 0; FTSENT *e = fts_read(S); min_fts = 0; events++; return e; }
#define BAD(key, ...) do { if (!stopped) { vh_viol(key, __VA_ARGS__); stopped = 1; } return; } while (0)
#define BAD0(key, ...) do { if (!stopped) { vh_viol(key, __VA_ARGS__); stopped = 1; } return 0; } while (0)
static void truth(int dfd, tr *t, int follow) { struct stat l; t->lerr = fstatat(dfd, t->name, &l, AT_SYMLINK_NOFOLLOW) ? errno : 0; t->islnk = !t->lerr && S_ISLNK(l.st_mode); if (follow) t->err = fstatat(dfd, t->name, &t->st, 0) ? errno : 0; else t->err = t->lerr, t->st = l; if (follow && t->err && !t->lerr) t->st = l; }
static int rmtree(int dfd, const char *name)
{
    if (!unlinkat(dfd, name, 0)) return 0; int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) { fchmodat(dfd, name, 0700, 0); fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return -1; }
    fchmod(fd, 0700); DIR *d = fdopendir(fd); struct dirent *e; for (;;) { rewinddir(d); int did = 0; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { rmtree(fd, e->d_name); did = 1; break; } if (!did) break; } closedir(d); return unlinkat(dfd, name, AT_REMOVEDIR);
}
typedef struct anc { struct anc *up; dev_t d; ino_t i; FTSENT *e; } anc;
static const char *IN[] = {"?", "D", "DC", "DEFAULT", "DNR", "DOT", "DP", "ERR", "F", "INIT", "NS", "NSOK", "SL", "SLNONE", "W"};
static int expect(const tr *t, int follow, int root, const anc *a, int *errp, size_t plen)
{
    *errp = 0; if ((opt & (FTS_NOCHDIR | FTS_LOGICAL)) && plen >= 4096) { vh_count("too_long", 1); *errp = ENAMETOOLONG; return FTS_NS; } if (t->err) { if (follow && !t->lerr) return FTS_SLNONE; *errp = t->err; return FTS_NS; }
    if (S_ISDIR(t->st.st_mode)) { if (!root && (!strcmp(t->name, ".") || !strcmp(t->name, ".."))) return FTS_DOT; for (const anc *q = a; q; q = q->up) if (q->d == t->st.st_dev && q->i == t->st.st_ino) return FTS_DC; return FTS_D; }
    return S_ISLNK(t->st.st_mode) ? FTS_SL : S_ISREG(t->st.st_mode) ? FTS_F : FTS_DEFAULT;
}
static int fields(FTSENT *e, const char *path, const char *name, int level, FTSENT *par, const char *when)
{
    if (strcmp(e->fts_path, path)) BAD0("fts:path", "%s: path '%.300s' (length %zu), expected '%.300s' (%zu)", when, e->fts_path, strlen(e->fts_path), path, strlen(path));
    if (e->fts_pathlen != strlen(path)) BAD0("fts:pathlen", "%s '%s': pathlen %u", when, path, e->fts_pathlen);
    if (strcmp(e->fts_name, name) || e->fts_namelen != strlen(name)) BAD0("fts:name", "%s '%s': name '%s' (%u)", when, path, e->fts_name, e->fts_namelen);
    if (e->fts_level != level) BAD0("fts:level", "%s '%s': level %d, expected %d", when, path, e->fts_level, level);
    if (par && e->fts_parent != par) BAD0("fts:parent", "%s '%s': wrong parent", when, path);
    if (!par && e->fts_parent->fts_level != FTS_ROOTPARENTLEVEL) BAD0("fts:parent", "%s '%s': parent level %d", when, path, e->fts_parent->fts_level);
    return 1;
}
static int access_ok(FTSENT *e, const tr *t, const char *path, int follow, const char *when)
{
    struct stat s; if (t->gone) return 1;
    if (fstatat(AT_FDCWD, e->fts_accpath, &s, follow ? 0 : AT_SYMLINK_NOFOLLOW)) BAD0("fts:accpath", "%s '%.200s': access path '%.200s' fails with %d", when, path, e->fts_accpath, errno);
    if (s.st_ino != t->st.st_ino || s.st_dev != t->st.st_dev) BAD0("fts:accpath", "%s '%.200s': access path '%.200s' is another file", when, path, e->fts_accpath);
    if (!(opt & FTS_NOSTAT)) { if (!e->fts_statp || e->fts_statp->st_ino != t->st.st_ino || e->fts_statp->st_mode != t->st.st_mode) BAD0("fts:stat", "%s '%.200s': wrong stat data", when, path); }
    return 1;
}
static int listdir(int fd, tr **out, int follow)
{
    int n = 0, cap = 16; tr *v = malloc(sizeof *v * (size_t)cap); DIR *d = fdopendir(dup(fd)); rewinddir(d); struct dirent *e;
    while ((e = readdir(d))) { if (!(opt & FTS_SEEDOT) && (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))) continue; if (n == cap) v = realloc(v, sizeof *v * (size_t)(cap *= 2)); memset(&v[n], 0, sizeof v[n]); strcpy(v[n].name, e->d_name); truth(fd, &v[n], follow); n++; }
    closedir(d); *out = v; return n;
}
static int na(const void *a, const void *b) { return strcmp(((const tr *)a)->name, ((const tr *)b)->name); }
static int nd(const void *a, const void *b) { return -na(a, b); }
static void handle(FTSENT *e, int pfd, tr *t, const char *path, const char *name, int level, FTSENT *par, anc *up, int root, int preset_skip);
static int own(const char *p) { return p[0] == 't' || !strncmp(p, "./t/", 4) || (!strncmp(p, scratch, strlen(scratch)) && p[strlen(scratch)] == '/' && p[strlen(scratch) + 1] == 't'); }
static void descend(FTSENT *e, int pfd, tr *t, const char *path, const char *name, int level, FTSENT *par, anc *up, int followed)
{
    infollow += followed; long num = e->fts_number; anc me = { up, t->st.st_dev, t->st.st_ino, e }; int log = opt & FTS_LOGICAL;
    int skip = acts && vrp(10), rm = acts && vrp(5) && own(path) && level > 0 && !followed && !infollow && !t->gone && !t->islnk && !log;
    if (skip) { vh_case_add(" skip"); if (fts_set(S, e, FTS_SKIP)) BAD("fts:set", "fts_set failed"); vh_count("skipped", 1); }
    if (rm) { rmtree(pfd, t->name); t->gone = 1; vh_count("vanished", 1); }
    int dfd = openat(pfd, t->name, O_RDONLY | O_DIRECTORY), oerr = dfd < 0 ? errno : 0; tr *v = 0; int n = 0, search = 1; struct stat ds;
    int xdev = (opt & FTS_XDEV) && t->st.st_dev != (rootdev_known ? rootdev : S->fts_dev); if (xdev) vh_count("xdev", 1);
    int twice = !skip && !xdev && acts && dfd >= 0 && !t->gone && own(path) && vrp(strlen(path) > 3800 ? 60 : 2);
    if (twice) {   /* look at the children, let a name appear, look again */
        min_fts = 1; fts_children(S, vrp(50) ? FTS_NAMEONLY : 0); min_fts = 0; if (mfailed) { stopped = 1; goto out; }
        char nm[256]; size_t l = vrp(70) ? 255 : 1 + vrn(255); memset(nm, 'N', l); nm[l] = 0; int f = openat(dfd, nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f >= 0) close(f); vh_count("looked_twice", 1);
    }
    if (dfd >= 0) { n = listdir(dfd, &v, log); search = !fstatat(dfd, ".", &ds, 0); }
    if (twice || (!skip && acts && vrp(20))) {   /* look at the children first */
        int names = vrp(50), cnt = 0, dens = vrp(50) ? 5 : vrp(50) ? 50 : 100; min_fts = 1; errno = 0; FTSENT *k = fts_children(S, names ? FTS_NAMEONLY : 0); int er = errno; min_fts = 0;
        if (mfailed) { stopped = 1; goto out; }
        if (!k && n && dfd >= 0 && !(er && !search)) { vh_viol("fts:children", "fts_children of '%.200s' gave nothing (errno %d)", path, er); stopped = 1; goto out; }
        char *hit = calloc(1, (size_t)n + 1);
        for (FTSENT *q = k; q; q = q->fts_link, cnt++) { int i; for (i = 0; i < n; i++) if (!hit[i] && !strcmp(v[i].name, q->fts_name)) break; if (i == n) { vh_viol("fts:children", "fts_children of '%.200s' lists '%s' wrongly", path, q->fts_name); stopped = 1; break; } hit[i] = 1; if (!names && search && !(opt & FTS_NOSTAT)) { int er2, w = expect(&v[i], log, 0, &me, &er2, strlen(path) - (path[strlen(path) - 1] == '/') + 1 + strlen(v[i].name)); if (q->fts_info != w) { vh_viol("fts:children", "fts_children of '%.200s': '%s' is %s, expected %s", path, q->fts_name, IN[q->fts_info], IN[w]); stopped = 1; break; } } if (q->fts_parent != e) { vh_viol("fts:children", "fts_children of '%.200s': wrong parent", path); stopped = 1; break; }
            if (!names && vrp(dens) && !strcmp(q->fts_name, v[i].name) && (q->fts_info == FTS_D || q->fts_info == FTS_F)) { vh_count("preskipped", 1); fts_set(S, q, FTS_SKIP); v[i].skip = 1; }
            if (!names && !log && !v[i].skip && vrp(3) && (q->fts_info == FTS_D || q->fts_info == FTS_F)) fts_set(S, q, FTS_FOLLOW), vh_count("followed_plain", 1);   /* not a link: nothing to follow */
            if (!names && !log && vrp(70) && !strcmp(q->fts_name, v[i].name) && (q->fts_info == FTS_SL || q->fts_info == FTS_SLNONE)) { vh_count("prefollowed", 1); fts_set(S, q, FTS_FOLLOW); v[i].fol = 1; } }
        if (!stopped && cnt != n && dfd >= 0) { vh_viol("fts:children", "fts_children of '%.200s' lists %d of %d", path, cnt, n); stopped = 1; } free(hit); vh_count("children_calls", 1); if (stopped) goto out;
    }
    if (skip || xdev) { FTSENT *x = rd(); if (x != e || x->fts_info != FTS_DP) { if (!mfailed) vh_viol("fts:skip", "'%.200s' skipped, next is '%.200s' %s", path, x ? x->fts_path : "(end)", x ? IN[x->fts_info] : ""); stopped = 1; goto out; } goto post; }
    if (dfd < 0) { FTSENT *x = rd(); if (mfailed) { stopped = 1; goto out; } if (x != e || x->fts_info != FTS_DNR || x->fts_errno != oerr) { vh_viol("fts:dnr", "unreadable '%.200s' (error %d) gave %s error %d", path, oerr, x ? IN[x->fts_info] : "(end)", x ? x->fts_errno : errno); stopped = 1; goto out; } vh_count("unreadable", 1); goto out; }
    if (!skip && !S->fts_child && acts && own(path) && level > 0 && !log && !followed && !infollow && !t->gone && !t->islnk && !(opt & FTS_NOCHDIR) && search && vrp(6)) {   /* someone puts another directory in its place: nothing may be read or entered through it */
        char mv[40]; snprintf(mv, sizeof mv, "moved.%d", nmoved++); if (!renameat(pfd, t->name, basefd, mv)) {
            int how = (int)vrn(3); if (how == 0) { char tg[320]; snprintf(tg, sizeof tg, "%s/other", scratch); if (symlinkat(tg, pfd, t->name)) {} } else if (how == 1) { if (mkdirat(pfd, t->name, 0755)) {} int q = openat(pfd, t->name, O_RDONLY | O_DIRECTORY); mkdirat(q, "decoy", 0755); int f = openat(q, "decoyfile", O_CREAT | O_WRONLY, 0600); close(f); close(q); } else if (mkdirat(pfd, t->name, 0755)) {}
            vh_case_add(" swap%d", how); t->gone = 1; vh_count("swapped", 1); struct stat c0, c1; __real_stat(".", &c0); int got = 0; FTSENT *x;
            while ((x = rd()) && x != e) { got++; if (x->fts_parent != e || (x->fts_info != FTS_NS && !(x->fts_info == FTS_NSOK && (opt & FTS_NOSTAT))) || (x->fts_info == FTS_NS && x->fts_errno != ENOENT)) { vh_viol("fts:swap", "'%.200s' was replaced; its entry '%.200s' is %s, error %d", path, x->fts_path, IN[x->fts_info], x->fts_errno); stopped = 1; break; } }
            if (mfailed) stopped = 1; else if (!x) { vh_viol("fts:swap", "'%.200s' was replaced; the traversal ended (errno %d)", path, errno); stopped = 1; } else if (!stopped && x->fts_info != FTS_ERR && x->fts_info != FTS_DP) { vh_viol("fts:swap", "'%.200s' was replaced; left as %s, error %d", path, IN[x->fts_info], x->fts_errno); stopped = 1; }
            __real_stat(".", &c1); if (!stopped && (c0.st_ino != c1.st_ino || c0.st_dev != c1.st_dev)) { vh_viol("fts:swap-cwd", "'%.200s' was replaced; the working directory moved", path); stopped = 1; } if (stopped) goto out; goto post; }
    }
    int moved = 0;
    if (order) qsort(v, (size_t)n, sizeof *v, order > 0 ? na : nd);
    int left = n, at = 0; char *pp = malloc(strlen(path) + 260); size_t pl = strlen(path); strcpy(pp, path); if (pl && pp[pl - 1] == '/') pl--; pp[pl++] = '/';
    while (left && !stopped) {
        FTSENT *x = rd(); if (!x) { if (!mfailed) vh_viol("fts:early-end", "traversal ended in '%.200s' with %d entries left (errno %d)", path, left, errno); stopped = 1; break; }
        int i; for (i = 0; i < n; i++) if (v[i].name[0] && !strcmp(v[i].name, x->fts_name)) break;
        if (x == e || i == n) { int onlyskip = x == e; for (int q = 0; q < n; q++) if (v[q].name[0] && !v[q].skip) onlyskip = 0; if (onlyskip) { S->fts_cur = x; left = -1; break; } vh_viol("fts:lost-or-twice", "in '%.200s': got '%.200s' (%s) with %d entries left", path, x->fts_path, IN[x->fts_info], left); stopped = 1; break; }
        if (v[i].skip && left != n) { vh_viol("fts:skip", "'%.200s', set to be skipped, was returned after its siblings", x->fts_path); stopped = 1; break; }
        if (order && !mfailed) { while (at < n && (!v[at].name[0] || (v[at].skip && at != i))) at++; if (at != i) { vh_viol("fts:order", "in '%.200s': '%s' before '%s'", path, x->fts_name, v[at].name); stopped = 1; break; } }
        strcpy(pp + pl, v[i].name); char nmc[256]; strcpy(nmc, v[i].name); tr tt = v[i];
        if (!search) { if (x->fts_info != FTS_NS && x->fts_info != FTS_NSOK) { vh_viol("fts:ns", "'%.200s' in an unsearchable directory is %s", pp, IN[x->fts_info]); stopped = 1; } else if (x->fts_info == FTS_NS && x->fts_errno != EACCES) { vh_viol("fts:ns", "'%.200s': error %d", pp, x->fts_errno); stopped = 1; } fields(x, pp, nmc, level + 1, e, "entry"); vh_count("unsearchable_entries", 1); }
        else {
            int pre = v[i].skip ? 1 : !v[i].fol ? 0 : left == n ? 2 : 3; if (pre == 3) truth(dfd, &tt, 1);
            handle(x, dfd, &tt, pp, nmc, level + 1, e, &me, 0, pre);
            if (acts && !stopped && own(pp) && vrp(3) && !log && !infollow && !followed) for (int q = 0; q < n; q++) if (q != i && v[q].name[0] && !v[q].gone && strcmp(v[q].name, ".") && strcmp(v[q].name, "..") && !v[q].islnk && (!order || q > i)) { rmtree(dfd, v[q].name); v[q].gone = 1; vh_count("vanished", 1); break; }   /* a listed entry goes away */
        }
        v[i].name[0] = 0; left--;
        int sk = 0; for (int q = 0; q < n; q++) sk |= v[q].name[0] && v[q].skip;
        if (!moved && !sk && !stopped && !(opt & FTS_SEEDOT) && acts && own(path) && level > 0 && !log && !followed && !infollow && !t->gone && !t->islnk && !(opt & FTS_NOCHDIR) && search && vrp(2)) { char mv[40]; snprintf(mv, sizeof mv, "moved.%d", nmoved++); if (!renameat(pfd, t->name, basefd, mv)) { moved = 1; t->gone = 1; vh_case_add(" movedaway"); vh_count("moved_away", 1); } }   /* ".." leads elsewhere from now on */
        if (events > maxev) { quick_close = 1; stopped = 1; }
    }
    free(pp); if (stopped) goto out;
    FTSENT *x = left < 0 ? e : rd(); if (moved && left >= 0) { int er = errno; if (!mfailed && (x || er != ENOENT)) vh_viol("fts:moved-away", "'%.200s' was moved; going up from it gave '%.200s', error %d", path, x ? x->fts_path : "(end)", er); else if (!mfailed && rd()) vh_viol("fts:moved-away", "an entry after the fatal error"); stopped = quick_close = 1; goto out; }
    if (mfailed && (!x || x->fts_info == FTS_ERR)) { stopped = 1; goto out; }
    if (x != e) { vh_viol("fts:post", "after '%.200s' (all entries seen) got '%.200s' %s errno %d", path, x ? x->fts_path : "(end)", x ? IN[x->fts_info] : "", errno); stopped = 1; goto out; }
    if (x->fts_info != FTS_DP && !(!search && x->fts_info == FTS_ERR && x->fts_errno == EACCES)) { vh_viol("fts:post", "'%.200s' is %s error %d in post-order", path, IN[x->fts_info], x->fts_errno); stopped = 1; goto out; }
    if (!search && n && !(opt & (FTS_NOCHDIR | FTS_LOGICAL | FTS_NOSTAT)) && x->fts_info != FTS_ERR) { vh_viol("fts:post-error", "'%.200s' could not be entered but is %s in post-order", path, IN[x->fts_info]); stopped = 1; goto out; }
post:
    fields(e, path, name, level, par, "post-order"); if (!stopped && e->fts_number != num) vh_viol("fts:number", "user data of '%.200s' lost", path);
    if (!stopped && !(followed && !(opt & FTS_LOGICAL))) access_ok(e, t, path, (opt & FTS_LOGICAL) || followed, "post-order"); vh_count("directories", 1);
out:
    infollow -= followed; if (dfd >= 0) close(dfd); free(v);
}
static void handle(FTSENT *e, int pfd, tr *t, const char *path, const char *name, int level, FTSENT *par, anc *up, int root, int preset_skip)
{
    int follow = (opt & FTS_LOGICAL) || (root && (opt & FTS_COMFOLLOW)) || preset_skip == 3, er, want = expect(t, follow, root, up, &er, strlen(path)); sig = vh_h(sig, (uint64_t)want + 16 * (uint64_t)level);
    if (!fields(e, path, name, level, par, "entry")) return;
    if (e->fts_info != want && !((opt & FTS_NOSTAT) && e->fts_info == FTS_NSOK && want != FTS_D && want != FTS_DC)) BAD("fts:type", "'%.200s' is %s (error %d), expected %s", path, IN[e->fts_info], e->fts_errno, IN[want]);
    if (e->fts_info == FTS_NS && e->fts_errno != er) BAD("fts:errno", "'%.200s': error %d, expected %d", path, e->fts_errno, er);
    int info = e->fts_info; if (info != FTS_NS && info != FTS_NSOK && info != FTS_SLNONE && !access_ok(e, t, path, follow, "entry")) return;
    if (info == FTS_DC) { vh_count("cycles", 1); FTSENT *w = 0; for (anc *q = up; q; q = q->up) if (q->d == t->st.st_dev && q->i == t->st.st_ino) { w = q->e; break; } if (e->fts_cycle != w) BAD("fts:cycle", "'%.200s': cycle entry is not the ancestor", path); }
    if (info == FTS_SLNONE) vh_count("dangling", 1);
    e->fts_number = ++uniq; vh_count("entries", 1);
    if (acts && !preset_skip && !t->gone && vrp(5) && info != FTS_NSOK && !(root && (follow || !strcmp(name, ".") || !strcmp(name, ".."))) && info != FTS_DOT) { fts_set(S, e, FTS_AGAIN); FTSENT *x = rd(); if (x != e || x->fts_info != info) BAD("fts:again", "'%.200s' asked for again gave %s", path, x == e ? IN[x->fts_info] : "another entry"); if (!fields(e, path, name, level, par, "again")) return; vh_count("again", 1); }
    if (info != FTS_D && vrp(4)) { min_fts = 1; errno = 77; FTSENT *k = fts_children(S, vrp(50) ? FTS_NAMEONLY : 0); min_fts = 0; if (k || errno) BAD("fts:children-leaf", "'%.200s' (%s) has children %p, error %d", path, IN[info], (void *)k, errno); vh_count("leaf_children", 1); }
    if (vrp(2)) { errno = 0; if (!fts_set(S, e, 77) || errno != EINVAL || e->fts_instr == 77) BAD("fts:set-invalid", "an unknown instruction was accepted"); errno = 0; if (fts_children(S, 77) || errno != EINVAL) BAD("fts:children-invalid", "an unknown option was accepted"); }
    int followed = preset_skip == 3;
    if (preset_skip == 2 ? info == FTS_SL || info == FTS_SLNONE : acts && !preset_skip && !t->gone && (info == FTS_SL || info == FTS_SLNONE) && vrp(35)) {
        tr f = *t; truth(pfd, &f, 1); int w = expect(&f, 1, root, up, &er, strlen(path)); if (!preset_skip && fts_set(S, e, FTS_FOLLOW)) BAD("fts:set", "fts_set failed"); ofailed = 0; if (vrp(5)) { if (vrp(50)) ofail = 1; else cfail = 1; } FTSENT *x = rd(); ofail = cfail = 0;
        if (ofailed) { if (x != e || x->fts_info != FTS_ERR || x->fts_errno != EMFILE || w != FTS_D || (opt & FTS_NOCHDIR)) BAD("fts:follow-refused", "'%.200s' could not be followed (no descriptor): %s, error %d", path, x == e ? IN[x->fts_info] : "another entry", x ? x->fts_errno : 0); vh_count("follow_refused", 1); return; }
        if (x != e || x->fts_info != w) BAD("fts:follow", "'%.200s' followed gave %s, expected %s", path, x == e ? IN[x->fts_info] : "another entry", IN[w]); if (!fields(e, path, name, level, par, "followed")) return; if (w != FTS_SLNONE && w != FTS_NS && !access_ok(e, &f, path, 1, "followed")) return; *t = f; info = w; followed = 1; vh_count("followed", 1); if (info == FTS_D) vh_count("followed_dirs", 1); e->fts_number = ++uniq;
    }
    if (info == FTS_D) {
        if (acts && vrp(1)) { quick_close = 1; stopped = 1; return; }
        if (preset_skip == 1) { FTSENT *x = rd(); if (x != e || x->fts_info != FTS_DP) BAD("fts:skip", "child '%.200s' set to be skipped was entered", path); return; }
        descend(e, pfd, t, path, name, level, par, up, followed || (root && t->islnk));
    }
}
static int nn;
static void mk(int fd, int depth, int maxd, int perm)
{
    int n = depth == 0 ? 1 + (int)vrn(7) : (int)vrn(6); if (nn > 60) return;
    for (int i = 0; i < n; i++) {
        char nm[256]; size_t l = vrp(80) ? 1 + vrn(6) : vrp(50) ? 1 + vrn(255) : 255; for (size_t j = 0; j < l; j++) nm[j] = (char)(vrp(90) ? 'a' + vrn(26) : vpick(".-_ ABC~\xc3")); nm[l] = 0; if (!strcmp(nm, ".") || !strcmp(nm, "..")) nm[0] = 'q'; int k = (int)vrn(10); nn++;
        if (k < 4 && depth < maxd) { if (mkdirat(fd, nm, 0755)) continue; int d = openat(fd, nm, O_RDONLY | O_DIRECTORY); mk(d, depth + 1, maxd, perm); if (perm && vrp(15)) fchmod(d, (mode_t)(int[]){0, 0444, 0111, 0400}[vrn(4)]); close(d); }
        else if (k < 7) { int d = openat(fd, nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (d >= 0) close(d); }
        else if (k == 7) mkfifoat(fd, nm, 0644);
        else { char tg[700]; switch (vrn(7)) { case 0: strcpy(tg, "."); break; case 1: strcpy(tg, ".."); break; case 2: strcpy(tg, "nosuch"); break; case 3: snprintf(tg, sizeof tg, "%s", nm); break; case 4: snprintf(tg, sizeof tg, "%s/other/sub", scratch); break; case 5: snprintf(tg, sizeof tg, "%s/other/empty", scratch); break; default: snprintf(tg, sizeof tg, "%s/other/file", scratch); } if (symlinkat(tg, fd, nm)) {} }
    }
}
static void chain(int fd)
{   /* a deep path; often its total length ("t/..") lies at the edge of a power of two, where the path buffer has to grow */
    int depth = 5 + (int)vrn(40), cur = dup(fd); size_t total = 1, tip = vrp(35), goal = tip ? 3838 + vrn(258) : vrp(70) ? (vrp(75) ? 4096 : 8192) - 3 + vrn(6) : 0; if (goal) depth = 100;
    for (int i = 0; i < depth; i++) {
        char nm[256]; size_t l = vrp(70) ? 200 + vrn(56) : 1 + vrn(255); int last = 0; if (goal) { size_t rem = goal - total; if (rem <= 256) { l = rem - 1; last = 1; } else if (rem - 1 - l < 2) l -= 3; }
        memset(nm, 'a' + (int)vrn(26), l); nm[l] = 0; total += l + 1; if (last && !tip && vrp(50)) { int f = openat(cur, nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f >= 0) close(f); break; }
        if (mkdirat(cur, nm, 0755) && errno != EEXIST) break; int d = openat(cur, nm, O_RDONLY | O_DIRECTORY); if (vrp(40) && !goal) { int f; char lf[256]; size_t m = 1 + vrn(255); memset(lf, 'Z', m); lf[m] = 0; f = openat(d, lf, O_CREAT | O_WRONLY, 0644); if (f >= 0) close(f); } close(cur); cur = d; if (d < 0 || last) break;
    }
    if (tip && cur >= 0) { for (int i = 2 + (int)vrn(6); i; i--) { char nm[256]; size_t l = vrp(50) ? 1 + vrn(255) : 230 + vrn(26); memset(nm, 'a' + i, l); nm[l] = 0; int f; if (vrp(60)) { f = openat(cur, nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f >= 0) close(f); } else mkdirat(cur, nm, 0755); } vh_count("full_tips", 1); }
    if (cur >= 0) close(cur); vh_count("deep_chains", 1); if (goal) vh_count("edge_paths", 1);
}
/* very wide directories and very deep chains: every entry once, in order, at its level */
static void wide(void)
{
    int n = vrp(50) ? 65530 + (int)vrn(20) : 10000 + (int)vrn(30000), ord = (int)vrn(3) - 1, deepn = 700 + (int)vrn(900); mkdir("w", 0755); int d = open("w", O_RDONLY | O_DIRECTORY), step = 7919; char nm[20]; vh_case("directory of %d files and a chain of %d levels, order %d", n, deepn, ord);
    for (int i = 0; i < n; i++) { snprintf(nm, sizeof nm, "%06d", (int)((long)i * step % n)); int f = openat(d, nm, O_CREAT | O_WRONLY, 0600); if (f < 0) { vh_emitf("@X", "cannot create %s", nm); return; } close(f); }
    int cur = dup(d); for (int i = 0; i < deepn; i++) { if (mkdirat(cur, i ? "d" : "zz", 0755)) break; int k = openat(cur, i ? "d" : "zz", O_RDONLY | O_DIRECTORY); close(cur); cur = k; } close(cur);
    unsigned char *seen = calloc(1, (size_t)n); int cnt = 0, deep = 0, up = 0, last = ord < 0 ? n : -1; long num = 0; char *pv[2] = { "w", 0 }; opt = FTS_PHYSICAL | (vrp(30) ? FTS_NOSTAT : 0); int fd0 = fdc(); acts = mfail = 0; min_fts = 0; S = fts_open(pv, opt, ord > 0 ? asc : ord < 0 ? desc : 0); if (!S) { vh_viol("fts:wide", "cannot open"); goto out; }
    for (FTSENT *e; (e = fts_read(S)) && !vh_nviol;) {
        if (e->fts_name[0] >= '0' && e->fts_name[0] <= '9') { int k = atoi(e->fts_name); if (k < 0 || k >= n || seen[k]++) { vh_viol("fts:wide-twice", "'%s' twice or foreign", e->fts_name); break; } cnt++; if (e->fts_level != 1 || e->fts_info != ((opt & FTS_NOSTAT) && e->fts_info == FTS_NSOK ? FTS_NSOK : FTS_F)) vh_viol("fts:wide-type", "'%s' is %s at level %d", e->fts_name, IN[e->fts_info], (int)e->fts_level); if (ord && (ord > 0 ? k < last : k > last)) vh_viol("fts:wide-order", "%d after %d", k, last); last = k; num += k; char ex[20]; snprintf(ex, sizeof ex, "w/%06d", k); if (strcmp(e->fts_path, ex)) vh_viol("fts:wide-path", "'%s', expected '%s'", e->fts_path, ex); }
        else if (e->fts_info == FTS_D && e->fts_level) { deep++; size_t l = 1 + 3 + 2 * ((size_t)deep - 1); if (e->fts_level != deep || strlen(e->fts_path) != l || e->fts_pathlen != l) vh_viol("fts:deep", "directory %d of the chain has level %d and a path of %zu (%zu)", deep, (int)e->fts_level, strlen(e->fts_path), (size_t)e->fts_pathlen); }
        else if (e->fts_info == FTS_DP && e->fts_level) { up++; if (e->fts_level != deepn + 1 - up) vh_viol("fts:deep", "leaving level %d as number %d of %d", (int)e->fts_level, up, deepn); }
        else if (e->fts_level) vh_viol("fts:wide-type", "'%s' is %s", e->fts_name, IN[e->fts_info]);
    }
    if (!vh_nviol && (cnt != n || deep != deepn || up != deepn)) vh_viol("fts:wide-missed", "%d of %d files, %d and %d of %d levels", cnt, n, deep, up, deepn);
    if (fts_close(S)) vh_viol("fts:close", "fts_close failed with %d", errno); if (fdc() != fd0) vh_viol("fts:fds", "%d descriptors open, %d before", fdc(), fd0);
out:
    free(seen);
    for (int i = 0; i < n; i++) { snprintf(nm, sizeof nm, "%06d", i); unlinkat(d, nm, 0); }
    /* take the chain apart from its end, in place: climb down once, remove on the way up */
    { int *st = malloc(sizeof(int) * 20), k; for (;;) { int a = openat(d, "zz", O_RDONLY | O_DIRECTORY); if (a < 0) break; for (k = 0; k < 1; k++) {} /* move the grandchild up */ int b = openat(a, "d", O_RDONLY | O_DIRECTORY); if (b < 0) { close(a); unlinkat(d, "zz", AT_REMOVEDIR); break; } close(b); if (renameat(a, "d", d, "zy")) { close(a); break; } close(a); unlinkat(d, "zz", AT_REMOVEDIR); if (renameat(d, "zy", d, "zz")) break; } free(st); }
    close(d); rmdir("w"); vh_count("wide", 1); vh_count("wide_entries", (uint64_t)cnt);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); snprintf(scratch, sizeof scratch, "%s", vh_tmp); if (chdir(scratch)) { vh_emitf("@X", "no scratch dir %s", scratch); return vh_end(); }
    int base = open(".", O_RDONLY | O_DIRECTORY); basefd = base; if (geteuid() == 0) vh_emitf("@X", "must not run as root");
    mkdir("other", 0755); mkdir("other/sub", 0755); mkdir("other/empty", 0755); { int f = open("other/file", O_CREAT | O_WRONLY, 0644); close(f); f = open("other/sub/x", O_CREAT | O_WRONLY, 0644); close(f); }
    char shm[64]; snprintf(shm, sizeof shm, "/dev/shm/vh31.%d", getpid()); int have_shm = !mkdir(shm, 0755); if (have_shm) { struct stat z; stat(shm, &z); shmdev = z.st_dev; char b[100]; snprintf(b, sizeof b, "%s/in", shm); int f = open(b, O_CREAT | O_WRONLY, 0600); close(f); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        if (c % 400 == 399) { wide(); vh_count("evals", 1); if (vh_nviol) break; continue; }
        nn = 0; int perm = vrp(25), deep = vrp(15); mkdir("t", 0755); int tfd = open("t", O_RDONLY | O_DIRECTORY); mk(tfd, 0, 1 + (int)vrn(5), perm); if (deep) chain(tfd); if (have_shm && vrp(10)) symlinkat(shm, tfd, "shmlink");
        opt = (vrp(60) ? FTS_PHYSICAL : FTS_LOGICAL) | (vrp(30) ? FTS_NOCHDIR : 0) | (vrp(30) ? FTS_COMFOLLOW : 0) | (vrp(25) ? FTS_NOSTAT : 0) | (vrp(15) ? FTS_SEEDOT : 0) | (vrp(20) ? FTS_XDEV : 0);
        if (deep && vrp(60)) opt = (opt & ~(FTS_NOCHDIR | FTS_LOGICAL)) | FTS_PHYSICAL; acts = vrp(60); order = vrp(40) ? 0 : vrp(50) ? 1 : -1; stopped = quick_close = 0; infollow = 0; events = uniq = 0; maxev = 3000; mfail = 0; mfailed = 0; compares = 0;
        fakeino = 0; { struct stat z; if (have_shm && !fstat(tfd, &z) && vrp(50)) fakeino = z.st_ino; }
        symlink("t", "tl"); int nr = vrp(70) ? 1 : (int)vrn(4); static char rs[4][400]; char *av[5]; for (int i = 0; i < nr; i++) { switch (deep && vrp(80) ? 8 : vrn(10)) { case 9: if (have_shm) { snprintf(rs[i], 400, "%s", shm); break; } /* fall through */ case 0: snprintf(rs[i], 400, "%s/t", scratch); break; case 1: strcpy(rs[i], "./t/"); break; case 2: strcpy(rs[i], "nonexistent"); break; case 3: strcpy(rs[i], "tl"); break; case 4: strcpy(rs[i], "other/file"); break; case 5: strcpy(rs[i], "."); break; case 6: strcpy(rs[i], "other"); break; default: strcpy(rs[i], "t"); } av[i] = vh_dups(rs[i]); } av[nr] = 0;
        if (order > 0) for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (strcmp(av[i], av[j]) > 0) { char *x = av[i]; av[i] = av[j]; av[j] = x; }
        if (order < 0) for (int i = 0; i < nr; i++) for (int j = i + 1; j < nr; j++) if (strcmp(av[i], av[j]) < 0) { char *x = av[i]; av[i] = av[j]; av[j] = x; }
        char *pv[5]; for (int i = 0; i <= nr; i++) pv[i] = av[i]; if (order && nr > 1 && vrp(50)) { pv[0] = av[nr - 1]; for (int i = 1; i < nr; i++) pv[i] = av[i - 1]; }
        vh_case("options %#x, order %d, %d nodes%s%s%s, roots:", opt, order, nn, deep ? ", deep" : "", perm ? ", permissions" : "", acts ? ", instructions" : ""); for (int i = 0; i < nr; i++) vh_case_add(" %s", pv[i]); sig = vh_h((uint64_t)opt, (uint64_t)order); if (vrp(8)) { mfail = 1 + (long)vrn(40); vh_case_add(" (allocation %ld fails)", mfail); }
        infollow = nr > 1; tr rt[4]; for (int i = 0; i < nr; i++) { memset(&rt[i], 0, sizeof rt[i]); snprintf(rt[i].name, sizeof rt[i].name, "%s", av[i]); truth(base, &rt[i], (opt & (FTS_LOGICAL | FTS_COMFOLLOW)) != 0); }
        int fd0 = fdc(); ofailed = 0; if (vrp(4)) { if (vrp(50)) ofail = 1; else cfail = 1; } min_fts = 1; errno = 0; S = fts_open(pv, opt, order > 0 ? asc : order < 0 ? desc : 0); int oe = errno; min_fts = 0; ofail = cfail = 0; if (ofailed) { opt |= FTS_NOCHDIR; vh_count("open_refused", 1); }
        if (!S) { if (!mfailed) vh_viol("fts:open", "fts_open failed with %d", oe); }
        else {
            if (!mfailed && vrp(15)) { errno = 7; FTSENT *k = fts_children(S, vrp(50) ? FTS_NAMEONLY : 0); int i = 0; for (; k && i < nr; k = k->fts_link, i++) if (strcmp(k->fts_name, av[i]) || k->fts_level != FTS_ROOTLEVEL) { vh_viol("fts:children-roots", "the children before the first entry: '%s', expected '%s'", k->fts_name, av[i]); break; } if (!vh_nviol && (k || i != nr || errno)) vh_viol("fts:children-roots", "%d children before the first entry, expected %d", i, nr); vh_count("root_children", 1); }
            if (vrp(3) || (mfailed && nr > 1)) quick_close = 1;
            else for (int i = 0; i < nr && !stopped; i++) {
                FTSENT *e = rd(); if (!e) { if (!mfailed) vh_viol("fts:early-end", "traversal ended before root '%s' (errno %d)", av[i], errno); stopped = 1; break; }
                const char *sl = strrchr(av[i], '/'), *nm = sl && (sl != av[i] || sl[1]) ? sl + 1 : av[i]; tr tt = rt[i]; rootdev = tt.st.st_dev; rootdev_known = !tt.err && S_ISDIR(tt.st.st_mode); handle(e, base, &tt, av[i], nm, 0, 0, 0, 1, 0); vh_count("roots", 1);
            }
            if (!stopped && !quick_close) { FTSENT *e = rd(); if (e) vh_viol("fts:excess", "'%.200s' (%s) after the last root", e->fts_path, IN[e->fts_info]); else if (errno && !mfailed) vh_viol("fts:end-errno", "end of traversal with errno %d", errno); else if (rd()) vh_viol("fts:after-end", "an entry after the end"); vh_count("completed", 1); }
            if (quick_close) vh_count("closed_early", 1); if (mfailed) vh_count("alloc_failures", 1);
            if (fts_close(S)) vh_viol("fts:close", "fts_close failed with %d", errno); struct stat a, b; if (fstat(base, &a) || stat(".", &b) || a.st_ino != b.st_ino || a.st_dev != b.st_dev) { vh_viol("fts:cwd", "working directory not restored"); if (fchdir(base)) _exit(79); }
        }
        if (fdc() != fd0) vh_viol("fts:fds", "%d descriptors open, %d before", fdc(), fd0);
        for (int i = 0; i < nr; i++) free(av[i]); close(tfd); rmtree(base, "t"); while (nmoved) { char mv[40]; snprintf(mv, sizeof mv, "moved.%d", --nmoved); rmtree(base, mv); } unlinkat(base, "tl", 0); if (opt == (opt | FTS_OPTIONMASK)) {} { char *z[] = {0}; if (fts_open(z, 0x4000, 0)) vh_viol("fts:badopt", "unknown option accepted"); }
        vh_count("events", (uint64_t)events); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    if (have_shm) rmtree(AT_FDCWD, shm); close(base); return vh_end();
}

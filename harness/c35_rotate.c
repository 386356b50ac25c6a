/* C35: log rotation against a model of the directory; failing steps injected. Runs unprivileged in its scratch directory. */
#include "vh.h"
#include <dirent.h>
#include "utils/rotatefile.h"
int __real_stat(const char *, struct stat *); int __real_rename(const char *, const char *); int __real_unlink(const char *);
static int inj, step, failat, failerr, failed, renames; enum { LIM = 260 };
static int hit(void) { if (inj && ++step == failat) { failed = 1; errno = failerr; return 1; } return 0; }
int __wrap_stat(const char *p, struct stat *s) { if (hit()) return -1; return __real_stat(p, s); }
int __wrap_rename(const char *a, const char *b) { if (inj) renames++; if (hit()) return -1; return __real_rename(a, b); }
int __wrap_unlink(const char *a) { if (inj && step + 1 == failat && failerr == ENOENT) step++; return __real_unlink(a); }
static void put(const char *n, uint32_t id, off_t size) { int f = open(n, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f < 0 || write(f, &id, 4) != 4 || (size > 4 && ftruncate(f, size))) vh_emitf("@X", "cannot create %s", n); close(f); }
static uint32_t get(const char *n, off_t *size) { int f = open(n, O_RDONLY | O_NOFOLLOW); if (f < 0) return 0; uint32_t id = 0; struct stat s; if (read(f, &id, 4) != 4) id = 0xffffffff; fstat(f, &s); *size = s.st_size; close(f); return id; }
typedef struct ent { char name[64]; uint32_t id; off_t size; int dir; } ent;
static ent before[200], after[300]; static int nb, na;
static void scan(ent *v, int *n) { DIR *d = opendir("."); struct dirent *e; *n = 0; while ((e = readdir(d))) if (e->d_name[0] != '.') { ent *x = &v[(*n)++]; snprintf(x->name, sizeof x->name, "%s", e->d_name); x->dir = e->d_type == DT_DIR; x->id = 0; x->size = 0; if (!x->dir) x->id = get(x->name, &x->size); } closedir(d); }
static ent *find(ent *v, int n, const char *name) { for (int i = 0; i < n; i++) if (!strcmp(v[i].name, name)) return &v[i]; return 0; }
static ent *gen(ent *v, int n, int k) { char b[64]; if (k < 0) strcpy(b, "log"); else snprintf(b, sizeof b, "log.%d", k); return find(v, n, b); }
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (geteuid() == 0) vh_emitf("@X", "must not run as root"); if (chdir(vh_tmp)) { vh_emitf("@X", "scratch"); return vh_end(); } uint32_t id = 1;
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        char dn[32]; snprintf(dn, sizeof dn, "d%llu", (unsigned long long)c); mkdir(dn, 0755); if (chdir(dn)) vh_emitf("@X", "chdir");
        int keep = 1 + (int)(vrp(70) ? vrn(6) : vrn(40)), dens = vrp(30) ? 95 : (int)vrn(100), live = !vrp(10), hi = keep + (int)vrn(20) + (vrp(15) ? 110 : 0), dirgen = vrp(6) ? (int)vrn((uint64_t)keep) : -1; uint64_t sig = vh_h((uint64_t)keep, (uint64_t)live);
        off_t lsize = 4; int bysize = vrp(35); uint64_t mb = vrp(90) ? vrn(4) : vr(); if (bysize) { off_t b = (off_t)((mb < 5 ? mb : vrn(4)) + vrn(2)) * 1048576; lsize = b + (off_t)vrn(5) - 2; if (vrp(30)) lsize = b + (off_t)vrn(1048576); if (lsize < 4) lsize = 4; }
        if (live) put("log", id++, lsize); vh_case("keep %d, %s of %lld bytes, limit %lld, generations:", keep, live ? "log" : "no log", (long long)lsize, bysize ? (long long)mb : -1);
        for (int k = 0; k < hi; k++) if (vrp(dens)) { char b[40]; snprintf(b, sizeof b, "log.%d", k); if (k == dirgen) mkdir(b, 0755); else put(b, id++, 4); if (k < 60) vh_case_add(" %d%s", k, k == dirgen ? "(dir)" : ""); sig = vh_h(sig, (uint64_t)k * 2 + (k == dirgen)); }
        static const char *other[] = { "log.x", "log.0x", "log.00", "log.-1", "log.", "log1", "log.1.gz", "other", "log.0.1" }; for (unsigned i = 0; i < sizeof other / sizeof *other; i++) if (vrp(30)) put(other[i], id++, 4);
        scan(before, &nb); char path[4100]; strcpy(path, "log"); int longp = vrp(12), toolong = 0; if (longp) { size_t want = 4070 + vrn(26), l = 0; while (l + 2 + 3 < want) { path[l++] = '.'; path[l++] = '/'; } while (l + 3 < want) { path[l] = '/'; l++; } strcpy(path + l, "log"); toolong = strlen(path) > 4000; vh_case_add(" (path of %zu)", strlen(path)); }
        failat = vrp(30) ? 1 + (int)vrn((uint64_t)keep * 2 + 3) : 0; failerr = vpick("\x05\x0d\x1c") ; failed = step = renames = 0; if (failat) vh_case_add(" step %d fails with %d", failat, failerr);
        char *px = vh_dups(path); inj = 1; int r = bysize ? rotate_filename_by_size(px, keep, mb, (unsigned)vr() & 3) : rotate_filename(px, keep, 0); inj = 0; free(px); scan(after, &na); sig = vh_h(sig, (uint64_t)(uint32_t)r + (uint64_t)bysize * 1000000);
        int due = !bysize || (live && ((uint64_t)lsize / 1048576 > mb || ((uint64_t)lsize / 1048576 == mb && lsize % 1048576)));
        /* nothing that is not a generation may change, whatever happened */
        for (int i = 0; i < nb; i++) { int k; char t[8]; if (sscanf(before[i].name, "log.%d%1s", &k, t) == 1) { char b[64]; snprintf(b, sizeof b, "log.%d", k); if (!strcmp(b, before[i].name) && k >= 0) continue; } if (!strcmp(before[i].name, "log")) continue; ent *a = find(after, na, before[i].name); if (!a || a->id != before[i].id || a->size != before[i].size) vh_viol("rotate:foreign", "'%s' was touched", before[i].name); }
        if (!due && !failed) {
            if (r != 0) vh_viol("rotate:not-due", "returned %d", r); if (na != nb) vh_viol("rotate:not-due", "%d entries, %d before", na, nb); for (int i = 0; i < nb && !vh_nviol; i++) { ent *a = find(after, na, before[i].name); if (!a || a->id != before[i].id) vh_viol("rotate:not-due", "'%s' changed though no rotation is due", before[i].name); } vh_count("not_due", 1);
        } else if (failed || r < 0 || toolong) {
            /* a failing step: reported, and nothing within the limit is gone */
            if (failed && r >= 0) vh_viol("rotate:error-lost", "a step failed with %d but the result is %d", failerr, r);
            if (failed && r < 0 && r != -failerr) vh_viol("rotate:errno", "result %d, expected %d", r, -failerr);
            if (!failed && !toolong && !(dirgen >= 0 && gen(before, nb, dirgen))) vh_viol("rotate:refused", "failed with %d without cause", r);
            for (int k = -1; k < keep - 1; k++) { ent *b = gen(before, nb, k); if (!b || b->dir) continue; int seen = 0; for (int i = 0; i < na; i++) seen += !after[i].dir && after[i].id == b->id && after[i].size == b->size; if (!seen) { vh_viol("rotate:lost", "generation %d (of %d kept) is gone after a failed rotation (result %d)", k, keep, r); break; } }
            vh_count(failed ? "failed_steps" : toolong ? "too_long" : "bad_generation", 1); if (toolong) vh_count(r < 0 ? "too_long_refused" : "too_long_done", 1);
        } else {
            for (int k = -1; k < hi + 3 && !vh_nviol; k++) {   /* expected content of each name */
                ent *want = 0; if (k == -1) want = 0; else if (k == 0 && (live || keep > 1)) want = live ? gen(before, nb, -1) : 0; else if (k == 0) want = gen(before, nb, 0); else if (k < keep - 1 || (k == keep - 1 && gen(before, nb, k - 1))) want = gen(before, nb, k - 1); else if (k == keep - 1) want = gen(before, nb, k); else if (k >= keep + 100) want = gen(before, nb, k);
                ent *g = gen(after, na, k); if (k >= 0 && g && g->dir && k >= keep) continue; if (!want != !g || (want && (want->id != g->id || want->size != g->size))) { vh_viol("rotate:content", "after rotation generation %d is %s, expected %s", k, g ? "another file" : "missing", want ? want->name : "none"); break; }
            }
            int ngen = 0; for (int k = 0; k < keep + 100; k++) { ent *g = gen(after, na, k); ngen += g && !g->dir; } if (!vh_nviol && ngen > keep) vh_viol("rotate:too-many", "%d generations kept, limit %d", ngen, keep); vh_count("rotated", 1); vh_count("generations", (uint64_t)ngen); if (bysize) vh_count("due", 1); vh_count("renames", (uint64_t)renames);
        }
        for (int i = 0; i < na; i++) if (after[i].dir) rmdir(after[i].name); else unlink(after[i].name); if (chdir("..")) {} rmdir(dn);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}

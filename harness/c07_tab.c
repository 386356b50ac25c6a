/* C07: policy-driven hash table: reference map, destructor ledger, iterators, locking under threads/fibers */
#include "vh.h"
#include <pthread.h>
#include "utils/hashtab.h"
#include "utils/utils.h"
#if defined(VH_FIB)
#include "fib.h"
#define ATOM(x) do { fib_nopreempt(1); x; fib_nopreempt(0); } while (0)
#else
#define ATOM(x) do { x; } while (0)
#endif
#if defined(VH_DELAY)
void delay_seed(uint64_t, int);
#endif
typedef struct { int key, ser, live, dead, tag, entered; } item;   /* live: in the table; dead: destructor runs */
static int hashmode; static uint64_t lockdepth, locks;
uint32_t arc4random(void) { return (uint32_t)vh_mix(vh_seed * 77 + vh_curcase); }
static uint32_t hashf(const void *p)
{
    int k = ((const item *)p)->key;
    switch (hashmode) { case 0: return (uint32_t)vh_mix((uint64_t)k); case 1: return 7; case 2: return (uint32_t)k & 3; case 3: return (uint32_t)k; default: return (uint32_t)k << 20; }
}
static int cmpf(const void *a, const void *b) { int x = ((const item *)a)->key, y = ((const item *)b)->key; return x < y ? -1 : x > y; }
static void dtorf(void *p) { item *i = p; ATOM(i->dead++); }
/* allocator with fault injection and ledger */
static int failat; static long nalloc, nlive;
static void *alloc_(void *c, size_t n) { (void)c; int f; ATOM((nalloc++, f = failat && nalloc >= failat)); if (f) return 0; ATOM(nlive++); return malloc(n); }
static void free_(void *c, void *p) { (void)c; if (p) ATOM(nlive--); free(p); }
/* non-recursive lock monitor for the sequential histories */
typedef struct { int held; } mlk;
static void mcreate(lockmgr *l); static void mlockf(void *o) { mlk *m = o; if (m->held) { vh_viol("tab:self-deadlock", "a lock is taken twice by the same thread"); _exit(77); } m->held = 1; lockdepth++; locks++; }
static void munlockf(void *o) { mlk *m = o; if (!m->held) vh_viol("tab:unlock", "a lock that is not held is released"); m->held = 0; lockdepth--; }
static void mdel(void *o) { free(o); }
static void mcreate(lockmgr *l) { l->create = mcreate; l->lock = mlockf; l->unlock = munlockf; l->dtor = mdel; l->opaq = calloc(1, sizeof(mlk)); }
static hash_table_t T; static void pol(hash_table_policy *p, int lk) { memset(p, 0, sizeof *p); p->hash = hashf; p->cmp = cmpf; p->mem.alloc = alloc_; p->mem.free = free_; if (lk == 1) p->lock.create = mcreate; else if (lk == 2) p->lock = Mutex_locker; }
#define REL(w) do { if (lockdepth) { vh_viol("tab:lock-left", "%s returned with %llu lock(s) held", w, (unsigned long long)lockdepth); _exit(77); } } while (0)

#if !defined(VH_FIB)
static item *cur[512]; static item *allit[20000]; static int nall, nk;
static int predmod; static int predcalls; static int predf(void *c, const void *p) { const item *i = p; if (c != (void *)&predmod) vh_viol("tab:cookie", "wrong cookie"); predcalls++; return i->key % predmod == 0; }
static int applied; static void applyf(void *c, const void *p) { item *i = (item *)p; (void)c; i->tag++; applied++; }
static item *mk(int k) { item *i = calloc(1, sizeof *i); i->key = k; i->ser = nall; allit[nall++] = i; return i; }
/* invalid parameters are refused: nothing is allocated, called, locked or changed */
static void badargs(const hash_table_policy *p)
{
    item k; memset(&k, 0, sizeof k); long a0 = nalloc, l0 = nlive; hash_table_t t = (hash_table_t)0x11; hash_table_iter_t it = (hash_table_iter_t)0x11; int n = 0, r; hash_table_policy q; predmod = 1;
#define BAD(call) do { n++; if ((r = (call)) >= 0) vh_viol("tab:invalid-accepted", "%s returned %d", #call, r); } while (0)
    BAD(hash_table_new(0, p)); BAD(hash_table_new(&t, 0)); q = *p; q.hash = 0; BAD(hash_table_new(&t, &q)); q = *p; q.cmp = 0; BAD(hash_table_new(&t, &q)); q = *p; q.mem.alloc = 0; BAD(hash_table_new(&t, &q));
    BAD(hash_table_insert(0, &k)); BAD(hash_table_insert(T, 0)); BAD(hash_table_remove_if(0, predf, &predmod)); BAD(hash_table_remove_if(T, 0, 0)); BAD(hash_table_iter_new(&it, 0, 0)); BAD(hash_table_iter_new(0, T, 1)); BAD(hash_table_bucket_iter_new(&it, 0, &k)); BAD(hash_table_bucket_iter_new(0, T, &k)); BAD(hash_table_iter_first(0)); BAD(hash_table_iter_next(0));
    if (hash_table_probe(0, &k) || hash_table_probe(T, 0)) vh_viol("tab:invalid-accepted", "probe without a table or an item gives an item"); hash_table_stat st; if (hash_table_stats(0, &st) || hash_table_stats(T, 0)) vh_viol("tab:invalid-accepted", "statistics without a table"); if (hash_table_iter_item(0)) vh_viol("tab:invalid-accepted", "item without an iterator");
    hash_table_apply(0, applyf, 0); hash_table_apply(T, 0, 0); hash_table_iter_delete(0); hash_table_delete(0);
    if (nalloc != a0 || nlive != l0) vh_viol("tab:invalid-alloc", "a refused call allocated memory"); REL("a refused call"); vh_count("refused_calls", (uint64_t)n);
}
static void sequential(void)
{
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        hash_table_policy p; hashmode = (int)vrn(5); int lk = (int)vrn(3); pol(&p, lk); int wd = vrp(70); if (wd) p.dtor = dtorf;
        p.logsize = vrp(20) ? 0 : 1 + vrn(5); p.fillmax = vrp(30) ? 0 : vrn(130); nk = 1 + (int)vrn(vrp(20) ? 500 : 60); if (nk > 512) nk = 512;
        nall = 0; memset(cur, 0, sizeof cur); failat = 0; nlive = nalloc = 0; lockdepth = 0;
        int faulty = vrp(15); uint64_t sig = vh_h(p.logsize * 1000 + p.fillmax, (uint64_t)(hashmode * 8 + lk));
        vh_case("logsize=%zu fillmax=%zu lock=%d hash=%d keys=%d dtor=%d faulty=%d: ", p.logsize, p.fillmax, lk, hashmode, nk, wd, faulty);
        if (faulty && vrp(20)) { failat = 1 + (int)vrn(2); hash_table_t t2 = 0; int r = hash_table_new(&t2, &p); if (r != -ENOMEM) { vh_viol("tab:new-fault", "new returned %d with no memory", r); } if (nlive) vh_viol("tab:new-leak", "%ld blocks left after failed new", nlive); failat = 0; nalloc = 0; }
        if (hash_table_new(&T, &p) != 0) { vh_viol("tab:new", "cannot create"); continue; }
        int steps = 40 + (int)vrn(400); size_t live = 0; item key; memset(&key, 0, sizeof key);
        for (int s = 0; s < steps && !vh_nviol; s++) {
            int k = (int)vrn((uint64_t)nk), op = (int)vrn(20); key.key = k; void *ret = (void *)0x11; int r; item *o = cur[k];
            if (faulty) failat = vrp(20) ? (int)nalloc + 1 + (int)vrn(2) : 0;
            hash_table_stat s0; hash_table_stats(T, &s0); size_t live0 = live;
            if (vrp(1)) badargs(&p);
            vh_case_add("%d:%d ", op, k); sig = vh_h(sig, (uint64_t)(op * 1000 + k));
            switch (op) {
            default: { item *n = mk(k); r = hash_table_insert(T, n); REL("insert");
                if (r == -ENOMEM && failat && !o) break;
                if (o ? r != -EEXIST : r != 0) vh_viol("tab:insert", "insert of key %d returned %d, %s", k, r, o ? "present" : "absent");
                if (!o) { cur[k] = n; n->live = n->entered = 1; live++; } break; }
            case 6: case 7: { item *n = mk(k); void *q = hash_table_probe(T, n); REL("probe");
                if (!q && failat && !o) break;
                if (q != (void *)(o ? o : n)) vh_viol("tab:probe", "probe of key %d returned %p", k, q);
                if (!o) { cur[k] = n; n->live = n->entered = 1; live++; } break; }
            case 8: case 9: { item *n = mk(k); r = hash_table_replace(T, n); REL("replace");
                if (r == -ENOMEM && failat && !o) break;
                if (r != 0) vh_viol("tab:replace", "replace returned %d", r);
                if (o) o->live = 0; else live++;
                cur[k] = n; n->live = n->entered = 1; break; }
            case 10: case 11: case 12: r = hash_table_lookup(T, &key, vrp(90) ? &ret : 0); REL("lookup");
                if (!!r != !!o || r < 0) vh_viol("tab:lookup", "lookup of key %d returned %d, reference %d", k, r, !!o);
                if (ret != (void *)0x11 && ret != o) vh_viol("tab:lookup-item", "lookup gave %p, reference %p", ret, (void *)o); break;
            case 13: case 14: case 15: r = hash_table_remove(T, &key, vrp(80) ? &ret : 0); REL("remove");
                if (o ? r != 0 : r != -ENOENT) vh_viol("tab:remove", "remove of key %d returned %d, %s", k, r, o ? "present" : "absent");
                if (o && ret != (void *)0x11 && ret != o) vh_viol("tab:remove-item", "remove gave %p", ret);
                if (o) { o->live = 0; cur[k] = 0; live--; } break;
            case 16: { predmod = 2 + (int)vrn(6); predcalls = 0; int exp = 0; for (int i = 0; i < nk; i++) if (cur[i] && i % predmod == 0) exp++;
                r = hash_table_remove_if(T, predf, &predmod); REL("remove_if");
                if (r != exp) vh_viol("tab:remove-if", "removed %d items, reference %d", r, exp);
                if (predcalls != (int)live) vh_viol("tab:remove-if-calls", "predicate called %d times for %zu items", predcalls, live);
                for (int i = 0; i < nk; i++) if (cur[i] && i % predmod == 0) { cur[i]->live = 0; cur[i] = 0; live--; } break; }
            case 17: { for (int i = 0; i < nk; i++) if (cur[i]) cur[i]->tag = 0; applied = 0; hash_table_apply(T, applyf, 0); REL("apply");
                if (applied != (int)live) vh_viol("tab:apply", "applied %d times to %zu items", applied, live);
                for (int i = 0; i < nk; i++) if (cur[i] && cur[i]->tag != 1) { vh_viol("tab:apply-once", "key %d visited %d times", i, cur[i]->tag); break; } break; }
            case 18: case 19: { int kind = (int)vrn(3); hash_table_iter_t it = 0; r = kind == 2 ? hash_table_bucket_iter_new(&it, T, &key) : hash_table_iter_new(&it, T, kind); REL("iter_new");
                if (r == -ENOMEM && failat) break;
                if (r != 0 || !it) { vh_viol("tab:iter-new", "returned %d", r); break; }
                for (int i = 0; i < nk; i++) if (cur[i]) cur[i]->tag = 0;
                int n = 0, last = -1; item *x; r = hash_table_iter_first(it); int end = r != 0;
                x = hash_table_iter_item(it); if (end != !x) vh_viol("tab:iter-first", "first returned %d but item is %p", r, (void *)x);
                for (; (x = hash_table_iter_item(it)) != 0; ) {
                    REL("iter_item"); if (++n > 2000) { vh_viol("tab:iter-endless", "iterator does not end"); break; }
                    if (x->key < 0 || x->key >= nk || cur[x->key] != x) { vh_viol("tab:iter-alien", "iterator %d yields an item not in the table", kind); break; }
                    x->tag++; if (kind == 1 && x->key <= last) vh_viol("tab:iter-order", "sorted iterator yields %d after %d", x->key, last); last = x->key;
                    r = hash_table_iter_next(it); REL("iter_next"); if ((r != 0) != (hash_table_iter_item(it) == 0)) vh_viol("tab:iter-next", "next returned %d but item is %p", r, hash_table_iter_item(it));
                }
                if (kind < 2) { if (n != (int)live) vh_viol("tab:iter-count", "iterator %d visits %d of %zu items", kind, n, live); }
                else if (o && o->tag != 1) vh_viol("tab:bucket-iter", "bucket iterator visits the key's item %d times", o->tag);
                for (int i = 0; i < nk; i++) if (cur[i] && cur[i]->tag > 1) { vh_viol("tab:iter-twice", "key %d visited %d times", i, cur[i]->tag); break; }
                hash_table_iter_next(it); if (hash_table_iter_item(it)) vh_viol("tab:iter-past-end", "item after the end");
                hash_table_iter_delete(it); REL("iter_delete"); vh_count("iterations", 1); break; }
            }
            hash_table_stat st; if (!hash_table_stats(T, &st)) vh_viol("tab:stats", "no stats"); REL("stats");
            if (!failat && (op < 10) && st.fill > s0.fill && st.size == s0.size && st.splits == s0.splits && st.fill * 100 / st.size > (p.fillmax == 0 || p.fillmax >= 100 ? 80 : p.fillmax))
                vh_viol("tab:no-growth", "%zu of %zu buckets filled, above %zu%%, and the table did not grow", (size_t)st.fill, (size_t)st.size, p.fillmax);
            if (st.size < s0.size || (st.size & (st.size - 1))) vh_viol("tab:size", "%zu buckets after %zu", (size_t)st.size, (size_t)s0.size);
            if (st.size > s0.size) { vh_count("growths", 1); if (op >= 10) vh_viol("tab:size", "operation %d changed the number of buckets", op); }
            if (st.fill > live || st.fill > st.size || !st.fill != !live || (hashmode == 1 && st.fill > 1) || (hashmode == 2 && st.fill > 4)) vh_viol("tab:fill", "%zu items in %zu of %zu buckets (hash %d, after op %d)", live, (size_t)st.fill, (size_t)st.size, hashmode, op);
            { int in = op < 10 && live > live0, rep = (op == 8 || op == 9) && o && cur[k] != o, lk_ = op >= 10 && op <= 12, gone = op >= 13 && op <= 16 ? (int)(live0 - live) : 0;
              if (st.inserts - s0.inserts != in || st.deletes - s0.deletes != gone || st.replaces - s0.replaces != rep || (lk_ && o ? st.lookups - s0.lookups != 1 : (unsigned)(st.lookups - s0.lookups) > (unsigned)lk_) || st.failed_lookups - s0.failed_lookups != (lk_ && !o) || (st.splits != s0.splits) != (st.size != s0.size))
                  vh_viol("tab:op-counts", "after operation %d on a key that was %s: inserts +%d deletes +%d replaces +%d lookups +%d failed +%d splits +%d", op, o ? "present" : "absent", st.inserts - s0.inserts, st.deletes - s0.deletes, st.replaces - s0.replaces, st.lookups - s0.lookups, st.failed_lookups - s0.failed_lookups, st.splits - s0.splits); }
            if (live && (st.maxchainlen < (live + st.fill - 1) / st.fill || (op < 10 && live > live0 && st.maxchainlen > live && s0.maxchainlen <= live0))) vh_viol("tab:maxchain", "longest chain reported %zu with %zu items in %zu buckets", (size_t)st.maxchainlen, live, (size_t)st.fill);
            if (hash_table_density(&st) != (double)live / (double)st.size || hash_table_fill_percent(&st) != 100 * (double)st.fill / (double)st.size || hash_table_actual_density(&st) != (st.fill ? (double)live / (double)st.fill : 0) || hash_table_avg_chainlen(&st) != (st.fill ? (int)(live / st.fill) : 0)) vh_viol("tab:density", "densities of %zu items in %zu of %zu buckets", live, (size_t)st.fill, (size_t)st.size);
            failat = 0;
            if (st.nodes != live) vh_viol("tab:count", "table reports %zu items, reference %zu (after op %d)", st.nodes, live, op);
            if (s % 16 == 0 || s == steps - 1) {
                for (int i = 0; i < nk; i++) { key.key = i; void *q = 0; r = hash_table_lookup(T, &key, &q); if (!!r != !!cur[i] || q != cur[i]) { vh_viol("tab:contents", "key %d: lookup %d %p, reference %p", i, r, q, (void *)cur[i]); break; } }
                for (int i = 0; i < nall; i++) { item *x = allit[i]; int want = wd && x->entered && !x->live; if (x->dead != want) { vh_viol("tab:dtor", "destructor ran %d times for an item that is %s", x->dead, x->live ? "still in the table" : x->entered ? "no longer in the table" : "never entered"); break; } }
            }
        }
        /* ledger: destructor exactly once for what left, never for what never entered */
        for (int i = 0; i < nk; i++) if (cur[i]) cur[i]->tag = 77;
        hash_table_stat st; hash_table_stats(T, &st); vh_count("splits", (uint64_t)st.splits);
        static char ent[20000]; for (int i = 0; i < nall; i++) ent[i] = 0;
        hash_table_delete(T); T = 0;
        if (nlive) vh_viol("tab:leak", "%ld allocator blocks left after delete", nlive);
        for (int i = 0; i < nall; i++) {
            item *x = allit[i]; int want = wd && x->entered; if (x->dead != want) { vh_viol("tab:dtor-delete", "destructor ran %d times in all for an item that %s", x->dead, x->entered ? "entered" : "never entered"); break; }
            free(x);
        }
        vh_count("evals", 1); vh_count("ops", (uint64_t)steps); vh_sig(sig);
        if (c < 3) vh_sample("logsize=%zu fillmax=%zu lock=%d hash=%d keys=%d: %d ops, %d splits", p.logsize, p.fillmax, lk, hashmode, nk, steps, st.splits);
        if (vh_nviol) break;
    }
    vh_count("locks_taken", locks);
}
#endif

/* ---- concurrent use with the mutex policy: per-key counts must balance */
#define CK 40
static item CI[8][CK]; static int CN, CT, ins[CK], rem[CK], failedins; static uint64_t cseed;
static struct { int k, in; uint64_t r; } dummy;
static uint64_t trnd(uint64_t *s) { *s += 0x9e3779b97f4a7c15ull; return vh_mix(*s); }
static int cops, ckeys;
static void cwork(int t)
{
    uint64_t s = cseed * 31 + (uint64_t)t; item key; memset(&key, 0, sizeof key); unsigned char mine[CK] = {0};
    int linc[CK] = {0}, lrem[CK] = {0};
    for (int n = 0; n < cops; n++) {
        int k = (int)(trnd(&s) % (uint64_t)ckeys), op = (int)(trnd(&s) % 10); key.key = k; void *q = 0;
        if (op < 5) { if (!mine[k]) { CI[t][k].key = k; int r = hash_table_insert(T, &CI[t][k]); if (r == 0) { linc[k]++; mine[k] = 1; } else if (r != -EEXIST) ATOM(vh_viol("tab:mt-insert", "insert returned %d", r)); } }
        else if (op < 8) { int r = hash_table_remove(T, &key, &q); if (r == 0) lrem[k]++; else if (r != -ENOENT) ATOM(vh_viol("tab:mt-remove", "remove returned %d", r)); }
        else { int r = hash_table_lookup(T, &key, &q); if (r && (!q || ((item *)q)->key != k)) ATOM(vh_viol("tab:mt-lookup", "lookup of %d found another item", k)); }
    }
    ATOM({ for (int k = 0; k < ckeys; k++) { __atomic_fetch_add(&ins[k], linc[k], __ATOMIC_RELAXED); __atomic_fetch_add(&rem[k], lrem[k], __ATOMIC_RELAXED); } });
}
static void cset(void)
{
    hash_table_policy p; hashmode = (int)vrn(5); pol(&p, 2); p.logsize = 1 + vrn(2); p.fillmax = 1 + vrn(90); ckeys = 2 + (int)vrn(CK - 2);
    CT = 2 + (int)vrn(3); memset(ins, 0, sizeof ins); memset(rem, 0, sizeof rem); memset(CI, 0, sizeof CI); nalloc = nlive = 0; failat = 0; cseed = vr();
    vh_case("mt threads=%d keys=%d ops=%d logsize=%zu fillmax=%zu hash=%d", CT, ckeys, cops, p.logsize, p.fillmax, hashmode);
    hash_table_new(&T, &p);
}
static void cjudge(void)
{
    item key; memset(&key, 0, sizeof key); size_t live = 0;
    for (int k = 0; k < ckeys; k++) { key.key = k; void *q = 0; int in = hash_table_lookup(T, &key, &q); live += (size_t)!!in; if (ins[k] - rem[k] != !!in) { vh_viol("tab:mt-balance", "key %d: %d successful inserts, %d successful removes, present=%d", k, ins[k], rem[k], in); break; } }
    hash_table_stat st; hash_table_stats(T, &st); if (st.nodes != live) vh_viol("tab:mt-count", "table reports %zu items, %zu present", st.nodes, live);
    vh_count("mt_splits", (uint64_t)st.splits); hash_table_delete(T); T = 0; if (nlive) vh_viol("tab:mt-leak", "%ld blocks left", nlive);
    vh_count("evals", 1); vh_count("mt_runs", 1);
}
#if defined(VH_FIB)
static void fw(void *a) { cwork((int)(intptr_t)a); }
static void fmain(void *a) { (void)a; int id[8]; for (int i = 0; i < CT; i++) id[i] = fib_spawn(fw, (void *)(intptr_t)i); for (int i = 0; i < CT; i++) fib_join(id[i]); fib_nopreempt(1); cjudge(); fib_nopreempt(0); }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        cops = 3 + (int)vrn(25); cset(); int r = fib_run(vr(), fmain, 0, 3000000);
        if (r == FIB_DEADLOCK) vh_viol("tab:deadlock", "%s", fib_why()); else if (r == FIB_MISUSE) vh_viol("tab:misuse", "%s", fib_why()); else if (r == FIB_STEPS) vh_viol("tab:livelock", "%s", fib_why());
        vh_count("schedules", 1); vh_sig(fib_schedhash()); if (c < 2) vh_sample("%d threads, %d keys, %d ops each: %llu switches", CT, ckeys, cops, (unsigned long long)fib_switches());
        if (r) break;
    }
    return vh_end();
}
#else
static void *tw(void *a) { cwork((int)(intptr_t)a); return 0; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    if (strcmp(vh_mode, "mt")) { sequential(); return vh_end(); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        cops = 200 + (int)vrn(600); cset();
#if defined(VH_DELAY)
        delay_seed(vr(), 4 + (int)vrn(5));
#endif
        pthread_t t[8]; for (int i = 0; i < CT; i++) pthread_create(&t[i], 0, tw, (void *)(intptr_t)i);
        for (int i = 0; i < CT; i++) pthread_join(t[i], 0);
        cjudge(); vh_sig(cseed);
    }
    return vh_end();
}
#endif

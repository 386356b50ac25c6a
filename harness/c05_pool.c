/* C05: worker pools (job manager: shared queue; work manager: queue per thread) */
#include "vh.h"
#include <pthread.h>
#include "utils/utils.h"
#include "posix/job.h"
#include "posix/work.h"
#define MAXJ 6000
typedef struct { _Atomic int state; int th, wantth, fail; uint64_t mark; uint64_t seq; uint64_t start, end; int subm; } job;
static job JB[MAXJ]; static int NJ, NT, NS, WORK, PERS, GOT; static _Atomic int over, execs; static uint64_t CTX = 0x1234; static int inflight[64];
#if defined(VH_FIB)
#include "fib.h"
void fib_fail_create(int); void fib_fail_init(int, int); int fib_objs(void);
#define NOW() fib_now()
#define ATOM(x) do { fib_nopreempt(1); x; fib_nopreempt(0); } while (0)
#else
static _Atomic uint64_t clk;
#define NOW() (atomic_fetch_add_explicit(&clk, 1, memory_order_relaxed) + 1)
#define ATOM(x) do { x; } while (0)
#include <stdatomic.h>
#endif
static int cb(void *ctx, void *w, int th)
{
    job *j = w; int f;
    if (j < JB || j >= JB + NJ || ((char *)j - (char *)JB) % sizeof(job)) { vh_viol("pool:alien-job", "callback got a pointer that was never submitted"); return 0; }
    if (ctx != &CTX) vh_viol("pool:context", "callback got a wrong context");
    if (th < 0 || th >= NT) { vh_viol("pool:thread-nr", "thread number %d of %d", th, NT); th = 0; }
    if (over) vh_viol("pool:after-wait", "job executed after the wait call returned");
#if defined(VH_FIB)
    if (inflight[th]++) vh_viol("pool:two-at-once", "thread %d runs two jobs at once", th);
#endif
    if (j->mark != vh_mix((uint64_t)(j - JB))) vh_viol("pool:job-data", "job data not visible to the worker");
    if (j->state++ != 0) vh_viol("pool:twice", "job %d executed twice", (int)(j - JB));
    j->th = th; j->start = NOW(); f = j->fail;
#if defined(VH_FIB)
    int n = (int)(j->mark & 7); while (n--) fib_point();
#endif
    j->end = NOW(); j->mark = 0;        /* plain write: must be ordered before wait returns */
#if defined(VH_FIB)
    inflight[th]--;
#endif
    execs++;
    return f ? -1 - (int)(f & 3) : (int)(j->seq % 3);
}
static job_manager JM; static work_manager WM;
static void submit_some(int s)
{
    for (int k = 0; k < PERS; k++) {
        job *j = &JB[s * PERS + k]; j->subm = s; j->seq = (uint64_t)k; j->mark = vh_mix((uint64_t)(j - JB));
        if (WORK) { int nx = j->wantth; int r = work_manager_submit_work(&WM, nx, j); if (r < 0 || r >= NT || (nx >= 0 && nx < NT && r != nx)) vh_viol("pool:submit-result", "submit to %d returned %d", nx, r); j->wantth = r; }
        else job_manager_submit_job(&JM, j);
    }
}
static int reportf;
static void setup(void)
{
    NT = 1 + (int)vrn(4); NS = 1 + (int)vrn(3); WORK = vrp(50); PERS = vrp(5) ? 400 + (int)vrn(500) : (int)vrn(9); if (vrp(6)) PERS = 0; NJ = NS * PERS; execs = 0; over = 0;
    memset(JB, 0, sizeof(job) * (size_t)(NJ ? NJ : 1)); memset(inflight, 0, sizeof inflight); reportf = 0;
    for (int i = 0; i < NJ; i++) { JB[i].fail = vrp(25); if (JB[i].fail) { reportf++; JB[i].fail = 1 + (int)vrn(9); } JB[i].wantth = vrp(50) ? -1 : (int)vrn((uint64_t)NT + (vrp(10) ? 3 : 0)); }
    vh_case("%s threads=%d submitters=%d jobs each=%d failing=%d", WORK ? "work" : "job", NT, NS, PERS, reportf);
}
static void judge(int err)
{
    over = 1;
    for (int i = 0; i < NJ; i++) {
        if (JB[i].state != 1) { vh_viol("pool:not-run", "job %d of %d executed %d times when wait returned", i, NJ, (int)JB[i].state); break; }
        if (JB[i].mark != 0) { vh_viol("pool:unfinished", "job %d not finished when wait returned", i); break; }
        if (WORK && JB[i].th != JB[i].wantth) { vh_viol("pool:wrong-thread", "job for thread %d ran on %d", JB[i].wantth, JB[i].th); break; }
    }
    if (err != reportf) vh_viol("pool:error-count", "wait reported %d failures, %d jobs failed", err, reportf);
    /* same submitter, same thread: in order */
    if (WORK || NT == 1) for (int i = 0; i < NJ && NJ < 200; i++) for (int k = i + 1; k < NJ; k++) if (JB[i].subm == JB[k].subm && JB[i].th == JB[k].th && JB[k].start < JB[i].end) { vh_viol("pool:order", "jobs of one submitter on one thread out of order"); return; }
}
#if defined(VH_FIB)
static void sub(void *a) { submit_some((int)(intptr_t)a); }
static void fmain(void *a)
{
    (void)a; int r;
    if (vrp(12)) {     /* something the pool needs cannot be created: nothing may stay behind, and the pool can be set up again */
        int k = (int)vrn(3), n = 1 + (int)vrn((uint64_t)(k == 0 ? NT : !WORK ? (k == 1 ? 3 : 1) : k == 1 ? 1 + 2 * NT : 1 + NT)), had = fib_objs(); fib_nopreempt(1); fib_fail_create(k == 0 ? n : 0); fib_fail_init(k == 1 ? n : 0, k == 2 ? n : 0); vh_count("failed_inits", 1); vh_count(k == 0 ? "failed_threads" : k == 1 ? "failed_semaphores" : "failed_mutexes", 1); fib_nopreempt(0);
        r = WORK ? work_manager_init(&WM, NT, cb, &CTX) : job_manager_init(&JM, NT, cb, &CTX); fib_fail_create(0); fib_fail_init(0, 0);
        if (r != (k == 1 ? -ENOSPC : -EAGAIN)) vh_viol("pool:init-fails", "failure of %s %d of a %s pool of %d: init returned %d", k == 0 ? "thread" : k == 1 ? "semaphore" : "mutex", n, WORK ? "work" : "job", NT, r);
        if (fib_live() != 1) { vh_viol("pool:init-leak", "%d threads run after a failed init", fib_live() - 1); return; }
        if (fib_objs() != had) vh_viol("pool:init-leak", "%d semaphores and mutexes left after a failed init", fib_objs() - had);
        memset(&JM, 0xa5, sizeof JM); memset(&WM, 0xa5, sizeof WM);
    }
    r = WORK ? work_manager_init(&WM, NT, cb, &CTX) : job_manager_init(&JM, NT, cb, &CTX);
    if (r != NT) { vh_viol("pool:init", "init of %d threads returned %d", NT, r); return; }
    int id[8]; for (int i = 0; i < NS; i++) id[i] = fib_spawn(sub, (void *)(intptr_t)i);
    for (int i = 0; i < NS; i++) fib_join(id[i]);
    int err = WORK ? work_manager_wait(&WM) : job_manager_wait(&JM);
    fib_nopreempt(1); over = 1; judge(err); fib_nopreempt(0);
    if (fib_live() != 1) vh_viol("pool:threads-left", "%d threads still running after wait", fib_live() - 1);
    if (WORK) work_manager_destroy(&WM); else job_manager_destroy(&JM);
}
static void fibmode(void)
{
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        setup(); memset(&JM, 0xa5, sizeof JM); memset(&WM, 0xa5, sizeof WM);
        int r = fib_run(vr(), fmain, 0, 3000000);
        if (r == FIB_DEADLOCK) vh_viol("pool:deadlock", "%s", fib_why()); else if (r == FIB_MISUSE) vh_viol("pool:misuse", "%s", fib_why()); else if (r == FIB_STEPS) vh_viol("pool:livelock", "%s", fib_why());
        vh_count("evals", 1); vh_count("schedules", 1); vh_count("switches", fib_switches()); vh_count("jobs_run", (uint64_t)execs); vh_sig(fib_schedhash());
        if (i < 3) vh_sample("%s pool: %d threads, %d submitters x %d jobs, %d failing, %llu context switches", WORK ? "work" : "job", NT, NS, PERS, reportf, (unsigned long long)fib_switches());
    }
}
#else
#if defined(VH_DELAY)
void delay_seed(uint64_t, int); unsigned long delay_hits(void);
#endif
static void *sub(void *a) { submit_some((int)(intptr_t)a); return 0; }
static int nthreads(void) { char b[64]; int n = -1; FILE *f = fopen("/proc/self/status", "r"); while (f && fgets(b, sizeof b, f)) if (sscanf(b, "Threads: %d", &n) == 1) break; if (f) fclose(f); return n; }
static void *nop(void *a) { return a; }
static void freemode(void)
{
    { pthread_t t; pthread_create(&t, 0, nop, 0); pthread_join(t, 0); }   /* a sanitizer may start its own thread with the first one */
    for (uint64_t i = 0; i < vh_cases; i++) {
        if (!vh_begin(i)) continue;
        setup(); if (vrp(40)) { for (PERS = 300 + (int)vrn(1500); NS * PERS > MAXJ; PERS /= 2) ; NJ = NS * PERS; memset(JB, 0, sizeof(job) * (size_t)NJ); reportf = 0; for (int k = 0; k < NJ; k++) { JB[k].fail = vrp(10); reportf += JB[k].fail; JB[k].wantth = vrp(50) ? -1 : (int)vrn((uint64_t)NT); } }
#if defined(VH_DELAY)
        delay_seed(vr(), 3 + (int)vrn(6));
#endif
        int before = nthreads(), ask = NT;
        if (vrp(15)) { ask = vrp(50) ? 0 : -1 - (int)vrn(5); NT = (int)sysconf(_SC_NPROCESSORS_ONLN); vh_count("defaulted", 1); vh_case_add(" (asked for %d threads: one per processor)", ask); }
        int r = WORK ? work_manager_init(&WM, ask, cb, &CTX) : job_manager_init(&JM, ask, cb, &CTX);
        if (r != NT) { vh_viol("pool:init", "init returned %d", r); continue; }
        pthread_t t[8]; for (int k = 0; k < NS; k++) pthread_create(&t[k], 0, sub, (void *)(intptr_t)k);
        for (int k = 0; k < NS; k++) pthread_join(t[k], 0);
        int err = WORK ? work_manager_wait(&WM) : job_manager_wait(&JM);
        judge(err);
        int after = nthreads(); for (int w = 0; w < 300 && after > before; w++) { usleep(10000); after = nthreads(); }
        if (after > before) vh_viol("pool:free-threads-left", "%d threads before, %d after", before, after);
        if (WORK) work_manager_destroy(&WM); else job_manager_destroy(&JM);
        vh_count("evals", 1); vh_count("jobs_run", (uint64_t)execs); vh_sig(vh_h((uint64_t)NJ, (uint64_t)(NT * 64 + NS * 8 + WORK)));
    }
}
#endif
int main(int argc, char **argv)
{
    vh_init(argc, argv);
#if defined(VH_FIB)
    fibmode();
#else
    freemode();
#endif
    return vh_end();
}

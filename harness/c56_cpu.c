/* C56: processor affinity: the effect of every call on the masks of process and threads is read back from the kernel */
#define _GNU_SOURCE 1
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <limits.h>
#include <sys/wait.h>
#include "utils/cpu.h"
static cpu_set_t all; static int nall, cpus[CPU_SETSIZE]; static pthread_barrier_t b1, b2; static cpu_set_t seen[6], after[6]; static int stop, myset[6];
static int only(const cpu_set_t *m, int c) { return CPU_COUNT(m) == 1 && CPU_ISSET((size_t)c, m); }
static const int odd[10] = { CPU_SETSIZE, CPU_SETSIZE - 1, CPU_SETSIZE + 1, 1 << 20, INT_MAX, -1, -2, INT_MIN, -64, -CPU_SETSIZE };
static int anycpu(int *valid) { int k = (int)vrn(10); if (k < 7) { *valid = 1; return cpus[vrn((uint64_t)nall)]; } *valid = 0; for (;;) { int c = vrp(50) ? (int)vrn(CPU_SETSIZE) : odd[vrn(10)]; if (c < 0 || c >= CPU_SETSIZE || !CPU_ISSET((size_t)c, &all)) return c; } }
static void proc(void *a)
{
    (void)a; cpu_set_t m, p = all;
    for (int i = 0; i < 6; i++) { int v, c = anycpu(&v); vh_case("bind the process to %d", c); int r = sys_cpu_set_process_affinity(c); sched_getaffinity(0, sizeof m, &m);
        if (v ? r != 0 : r != -EINVAL) { vh_viol("cpu:process-result", "returned %d", r); break; } if (v) { CPU_ZERO(&p); CPU_SET((size_t)c, &p); } if (!CPU_EQUAL(&m, &p)) { vh_viol("cpu:process-mask", "mask of %d CPUs", CPU_COUNT(&m)); break; }
        if (v) { for (int k = 0; k < 100 && sched_getcpu() != c; k++) sched_yield(); if (sched_getcpu() != c) vh_viol("cpu:process-runs", "runs on %d", sched_getcpu()); }
        if (v && vrp(50)) { pid_t q = fork(); if (!q) { cpu_set_t z; sched_getaffinity(0, sizeof z, &z); _exit(!CPU_EQUAL(&z, &p)); } int st; waitpid(q, &st, 0); if (st) vh_viol("cpu:process-child", "a child has another mask"); } }
    _exit(vh_nviol ? 77 : 0);
}
static void *thr(void *a) { int t = (int)(intptr_t)a; if (myset[t] >= 0) sys_cpu_set_my_thread_affinity(myset[t]); pthread_barrier_wait(&b1); pthread_barrier_wait(&b2); sched_getaffinity(0, sizeof after[t], &after[t]); (void)stop; return 0; }
static void thrs(void *a)
{
    (void)a; int n = 1 + (int)vrn(5); pthread_t t[6]; cpu_set_t want[6], mine = all, m; pthread_barrier_init(&b1, 0, (unsigned)n + 1); pthread_barrier_init(&b2, 0, (unsigned)n + 1); vh_case("%d threads", n);
    for (int i = 0; i < n; i++) { int v = 1; want[i] = all; myset[i] = -1; if (vrp(40)) { myset[i] = cpus[vrn((uint64_t)nall)]; CPU_ZERO(&want[i]); CPU_SET((size_t)myset[i], &want[i]); } (void)v; pthread_create(&t[i], 0, thr, (void *)(intptr_t)i); } pthread_barrier_wait(&b1);
    for (int k = 0; k < 8; k++) { int v, c = anycpu(&v), i = (int)vrn((uint64_t)n + 1); vh_case_add(" %d->%d", i, c); if (i == n) { if (vrp(50)) sys_cpu_set_my_thread_affinity(c); else sys_cpu_set_thread_affinity(pthread_self(), c); if (v) { CPU_ZERO(&mine); CPU_SET((size_t)c, &mine); } } else { sys_cpu_set_thread_affinity(t[i], c); if (v) { CPU_ZERO(&want[i]); CPU_SET((size_t)c, &want[i]); } }
        for (int j = 0; j < n; j++) { pthread_getaffinity_np(t[j], sizeof m, &m); if (!CPU_EQUAL(&m, &want[j])) vh_viol("cpu:thread-mask", "thread %d has a mask of %d CPUs after the call for %d", j, CPU_COUNT(&m), i); } sched_getaffinity(0, sizeof m, &m); if (!CPU_EQUAL(&m, &mine)) vh_viol("cpu:self-mask", "the caller has a mask of %d CPUs after the call for %d", CPU_COUNT(&m), i); if (vh_nviol) break; }
    pthread_barrier_wait(&b2); for (int i = 0; i < n; i++) { pthread_join(t[i], 0); if (!vh_nviol && !CPU_EQUAL(&after[i], &want[i])) vh_viol("cpu:thread-own", "thread %d sees another mask", i); }
    _exit(vh_nviol ? 77 : 0);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); sched_getaffinity(0, sizeof all, &all); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET((size_t)i, &all)) cpus[nall++] = i; (void)only;
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; vh_case("count"); int n = sys_cpu_getavail(); if (n != (int)sysconf(_SC_NPROCESSORS_ONLN) || n < 1 || n < nall) vh_viol("cpu:count", "%d processors, %ld are online", n, sysconf(_SC_NPROCESSORS_ONLN));
        uint64_t s = vr(); vh_rs = s; int p = (int)vrn(2), st = vh_fork(p ? proc : thrs, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) vh_nviol++; else if (st) vh_viol("cpu:crash", "status %#x", st);
        vh_count("evals", 1); vh_count(p ? "process_runs" : "thread_runs", 1); vh_sig(s); if (c < 3) vh_sample("%s", p ? "process affinity" : "thread affinity"); if (vh_nviol) break;
    }
    return vh_end();
}

/* Controlled scheduling of "threads" as fibers of one OS thread.  Code compiled with
 * -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores calls back at every block
 * edge, load and store; each callback is a possible preemption.  pthread/semaphore calls are
 * replaced (link with --wrap) by fiber versions, so a deadlock is seen exactly (nobody can
 * run) and every schedule is a deterministic function of the seed. */
#ifndef FIB_H
#define FIB_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { FIB_OK = 0, FIB_DEADLOCK = 1, FIB_STEPS = 2, FIB_MISUSE = 3 };
/* run main_fn as the first fiber, until every fiber ended. returns FIB_* */
int fib_run(uint64_t seed, void (*main_fn)(void *), void *arg, uint64_t maxsteps);
int fib_spawn(void (*fn)(void *), void *arg);   /* from inside a run; returns id */
void fib_join(int id);
uint64_t fib_now(void);         /* strictly increasing event time of the run */
int fib_self(void);
void fib_yield(void);
void fib_point(void);           /* explicit preemption point */
void fib_nopreempt(int on);     /* harness bookkeeping is not interrupted */
uint64_t fib_switches(void);    /* switches in the last run */
uint64_t fib_schedhash(void);   /* hash of the switch sequence of the last run */
const char *fib_why(void);      /* text for DEADLOCK/MISUSE */
int fib_live(void);             /* fibers not yet ended */
#ifdef __cplusplus
}
#endif
#define FIB_WRAPS "pthread_create","pthread_join"
#endif

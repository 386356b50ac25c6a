/* random delays at every basic-block edge of the instrumented code (free-running threads) */
#define _GNU_SOURCE 1
#include <stdint.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
static __thread uint64_t rs; static uint64_t seed0 = 1; static int rate = 6; static unsigned long hits;
void delay_seed(uint64_t s, int r) { seed0 = s; rate = r; rs = 0; }
unsigned long delay_hits(void) { return __atomic_load_n(&hits, __ATOMIC_RELAXED); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { while (a < b) *a++ = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    (void)g;
    if (!rs) rs = seed0 * 0x9e3779b97f4a7c15ull ^ (uint64_t)(uintptr_t)&rs ^ ((uint64_t)gettid() << 32) | 1;
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    if ((rs & ((1u << rate) - 1)) == 0) {
        unsigned k = (unsigned)(rs >> 40) & 63;
        if (k < 40) for (volatile unsigned i = 0; i < (unsigned)((rs >> 50) & 511); i++) ;
        else if (k < 62) sched_yield();
        else { struct timespec t = { 0, 20000 + (long)(rs >> 48) }; nanosleep(&t, 0); }
        __atomic_add_fetch(&hits, 1, __ATOMIC_RELAXED);
    }
}

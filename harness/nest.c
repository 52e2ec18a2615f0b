/* Preemption points inside the code under test: the repository's sources are compiled with -fsanitize-coverage=trace-pc,
 * which calls the function below in every basic block.  A run first records which blocks a call executes, and then
 * interrupts the call at a chosen occurrence of a chosen block to run another call there. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#define E __attribute__((visibility("default")))
#define N 16384
typedef struct { uint64_t pc, first, last, count, some; } pt;
#define TLS static   /* one thread per process in these runs */
TLS uint64_t cnt, target, seed; TLS int on, rec; TLS void (*cb)(void);
static pt T[N];
E void __sanitizer_cov_trace_pc(void) {
    if (!on) return;
    cnt++;
    if (rec) {
        uint64_t pc = (uint64_t)(uintptr_t)__builtin_return_address(0); size_t h = (size_t)((pc * 0x9E3779B97F4A7C15ull) >> 50);
        while (T[h].pc && T[h].pc != pc) h = (h + 1) % N;
        pt *t = &T[h]; if (!t->pc) { t->pc = pc; t->first = t->some = cnt; }
        t->last = cnt; t->count++; seed = seed * 6364136223846793005ull + 1442695040888963407ull; if ((seed >> 33) % t->count == 0) t->some = cnt;
    } else if (cnt == target) { on = 0; cb(); }
}
E void vf_nest_record(uint64_t s) { memset(T, 0, sizeof T); cnt = 0; rec = 1; seed = s; on = 1; }
E void vf_nest_arm(uint64_t at, void (*f)(void)) { cnt = 0; target = at; cb = f; rec = 0; on = 1; }
E void vf_nest_off(void) { on = 0; }
E uint64_t vf_nest_count(void) { return cnt; }
E const pt *vf_nest_points(void) { return T; }
E uint64_t vf_nest_size(void) { return N; }

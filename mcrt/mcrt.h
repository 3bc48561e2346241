/* Model-checking runtime: runs the real, unmodified library under a controlled
 * scheduler and explores its thread interleavings.
 *
 * Every pthread primitive (via linker --wrap) and every C11 atomic (via the
 * compiler's thread-sanitizer instrumentation) is a visible operation.  Threads
 * are fibers of one process, so an execution is a deterministic function of the
 * list of scheduling decisions.  */
#ifndef MCRT_H
#define MCRT_H
#include <stddef.h>
#include <stdint.h>

enum { MC_OK = 0, MC_DEADLOCK, MC_CRASH, MC_RACE, MC_MEM, MC_LEAK, MC_MISMATCH, MC_STEPS, MC_SYNC, MC_PRUNED };

/* provided by the harness */
extern void mc_scenario(void *arg);          /* runs as thread 0 */

/* used by the harness */
void mc_fail(int kind, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void mc_note_state(uint64_t h);              /* fold harness-visible state into thread history */
int  mc_active(void);
void mc_oom(long first, long last);          /* allocations [first,last] of this execution fail (1-based) */
long mc_alloc_count(void);
long mc_live_blocks(void);
void mc_thread_spawn(void (*fn)(void *), void *arg, int *id); /* extra user thread */
void mc_thread_join(int id);

typedef struct {
    int policy;        /* base schedule */
    int bound;         /* deviations from the base schedule */
    int spurious;      /* also explore spurious condition-variable wake-ups */
    int workers;
    double seconds;
    const char *replay;  /* "n:k,n:k,..." -> run this schedule only */
    int verbose;
    int leakcheck;
    int state_bits;    /* log2 of the visited-state table (default 25) */
} McOpts;

typedef struct {
    int kind; char msg[512]; char sched[256];
    uint64_t execs, steps, states, choice_points, pruned;
    uint64_t items_pushed;
    int completed_bound;  /* -1: not even the base schedule */
    int exhausted;        /* the bounded space was fully explored */
    uint64_t max_cp, max_steps;
    double wall;
    int max_threads;
} McResult;

/* run once outside exploration (deterministic base schedule) */
int mc_run_once(const McOpts *o, void *arg, McResult *r);
void mc_explore(const McOpts *o, void *arg, McResult *r);
#endif

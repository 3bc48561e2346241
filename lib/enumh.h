/* Support for the sequential enumeration harnesses: sharding, counting,
 * reporting, crash and hang attribution. */
#ifndef ENUMH_H
#define ENUMH_H
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>

static int en_shard, en_nshards = 1, en_quick = 1;
static uint64_t en_seed = 1, en_evals, en_cases, en_nontrivial, en_states;
static int en_viol;
static char en_case[2048];                   /* description of the case being run (also the replay key) */
static const char *en_only;                  /* replay: run only this case */
static int en_hang_s = 30;
static uint64_t *en_set; static size_t en_set_cap, en_set_n;
static double en_deadline;
static double en_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
/* distinct outcomes/states seen */
static int en_seen(uint64_t h) {
    if (!h) h = 1;
    if (en_set_n * 2 >= en_set_cap) {
        size_t nc = en_set_cap ? en_set_cap * 2 : 1 << 12; uint64_t *o = en_set; size_t oc = en_set_cap;
        en_set = calloc(nc, 8); en_set_cap = nc; en_set_n = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) { size_t j = o[i] & (nc - 1); while (en_set[j]) j = (j + 1) & (nc - 1); en_set[j] = o[i]; en_set_n++; }
        free(o);
    }
    size_t j = h & (en_set_cap - 1);
    while (en_set[j]) { if (en_set[j] == h) return 1; j = (j + 1) & (en_set_cap - 1); }
    en_set[j] = h; en_set_n++; return 0;
}
static void en_viol_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void en_viol_(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    for (char *s = b; *s; s++) if (*s == '\n') *s = ' ';
    en_viol++;
    printf("V %s | %s\n", en_case, b); fflush(stdout);
    if (en_viol >= 8) { printf("E %llu %llu %llu %llu 0\n", (unsigned long long)en_cases, (unsigned long long)en_evals, (unsigned long long)en_nontrivial, (unsigned long long)en_set_n); fflush(stdout); _exit(0); }
}
static void en_dead(const char *why) {
    char b[2400]; int n = snprintf(b, sizeof(b), "V %s | %s\n", en_case, why);
    fflush(stdout);
    if (write(1, b, n) < 0) _exit(3);
    _exit(3);
}
static void en_sig(int s) {
    en_dead(s == SIGALRM ? "no progress: the call did not return" : s == SIGABRT ? "aborted (failed assertion or allocator check)" :
            s == SIGFPE ? "arithmetic exception" : s == SIGILL ? "illegal instruction" : "invalid memory access");
}
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void en_asan(void) { en_dead("sanitizer report (see stderr)"); }
static int en_mine_ctr;
/* begin a case; returns 0 if another shard owns it (or replay selects another) */
static int en_begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static int en_begin(const char *fmt, ...) {
    const int mine = en_mine_ctr++ % en_nshards == en_shard;
    if (!en_only && !mine) return 0;
    va_list ap; va_start(ap, fmt); vsnprintf(en_case, sizeof(en_case), fmt, ap); va_end(ap);
    if (en_only && strcmp(en_only, en_case)) return 0;
    if (en_only) fprintf(stderr, "case %s\n", en_case);
    en_cases++;
    alarm(en_hang_s);
    return 1;
}
static int en_over(void) { return en_deadline && en_now() > en_deadline; }
/* args: shard nshards quick|thorough seconds [only-case]; VERIF_SEED in env */
static void en_init(int argc, char **argv) {
    if (argc < 5) { fprintf(stderr, "usage: %s shard nshards quick|thorough seconds [case]\n", argv[0]); exit(2); }
    en_shard = atoi(argv[1]); en_nshards = atoi(argv[2]); en_quick = strcmp(argv[3], "thorough");
    if (atof(argv[4]) > 0) en_deadline = en_now() + atof(argv[4]);
    if (argc > 5 && *argv[5]) en_only = argv[5];
    if (getenv("VERIF_SEED")) en_seed = strtoull(getenv("VERIF_SEED"), NULL, 10);
    static char stk[65536]; stack_t ss = { .ss_sp = stk, .ss_size = sizeof(stk) }; sigaltstack(&ss, NULL);
    struct sigaction sa = { .sa_handler = en_sig, .sa_flags = SA_ONSTACK };
    sigaction(SIGALRM, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    if (!__asan_set_death_callback) { sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); }
    else __asan_set_death_callback(en_asan);
}
static int en_finish(void) {
    alarm(0);
    printf("E %llu %llu %llu %llu %d\n", (unsigned long long)en_cases, (unsigned long long)en_evals, (unsigned long long)en_nontrivial, (unsigned long long)en_set_n, en_over());
    fflush(stdout);
    return 0;
}
static int en_samples;
static void en_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void en_sample(const char *fmt, ...) {
    if (en_shard || en_samples++ >= 8) return;
    va_list ap; va_start(ap, fmt); printf("S "); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
#endif

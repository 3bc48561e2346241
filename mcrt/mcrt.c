#define _GNU_SOURCE
#include "mcrt.h"
#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 14
#define STACK_SZ (2u << 20)
#define HEAP_SZ  (192ull << 20)
#define BASE     0x200000000000ull
#define STACKS   BASE
#define HEAPS    (BASE + (uint64_t)MAXT * STACK_SZ)
#define REGION   ((uint64_t)MAXT * STACK_SZ + (uint64_t)MAXT * HEAP_SZ)
#define SHADOW   0x300000000000ull       /* 8 bytes per byte of REGION */
#define LIVE     0x3f0000000000ull       /* 1 byte per 8 bytes of REGION */
#define MAXCP    200000
#define MAXSTEPS 400000
#define MAXDEV   12

void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);

typedef uint32_t Clk;
typedef struct { Clk c[MAXT]; } VC;

enum { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
typedef struct Obj {
    uintptr_t addr; int kind; /* 1 mutex 2 cond 3 atomic 4 once */
    int owner; int destroyed;
    int waiters[MAXT], nw;
    uint64_t h;
    VC vc; int has_vc;
} Obj;
typedef struct Thr {
    void *sp; int st; Obj *wait; Obj *want; int join_target;
    uint64_t h; VC vc; int joined;
    void *(*fn)(void *); void *arg; void *ret;
    uint8_t *heap; uint64_t heap_used;
    uint32_t nalloc;
} Thr;

/* all mutable runtime state, one instance per process */
static struct {
    int active, ncur, nthr, max_thr;
    Thr t[MAXT];
    void *ctl_sp;
    const McOpts *o;
    void *arg;
    uint32_t dev_n[MAXDEV]; uint8_t dev_k[MAXDEV]; int ndev, dev_i;
    uint32_t cp; uint64_t steps;
    uint8_t *nopt;
    int result; char msg[512];
    long oom_first, oom_last, nalloc_all, live;
    Clk base;
    int rem; int explore;
    uint64_t rr;
    int in_rt;
    Clk maxclk;
} R;

/* ------------------------------------------------------------- shared */
typedef struct { uint32_t n[MAXDEV]; uint8_t k[MAXDEV]; uint8_t nd; } Item;
typedef struct {
    _Atomic uint64_t head, tail, level_end, waiting, execs, steps, states, cps, pruned, max_cp, max_steps;
    _Atomic int stop, level, viol, overflow, done, timeup, maxthr;
    int kind; char msg[512]; Item bad;
} Shared;
static Shared *S;
static Item *Q; static uint64_t QCAP;
static _Atomic uint64_t *VT; static uint64_t VMASK;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) {
    a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
    a ^= a >> 33; a *= 0xff51afd7ed558ccdull; a ^= a >> 29; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 32;
    return a;
}

/* ------------------------------------------------------------- fibers */
void mc_switch(void **save, void *to);
__asm__(".text\n.globl mc_switch\nmc_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

int mc_active(void) { return R.active; }

static void finish(int kind) __attribute__((noreturn));
static void finish(int kind) {
    R.result = kind;
    void *dummy;
    mc_switch(&dummy, R.ctl_sp);
    __builtin_unreachable();
}
void mc_fail(int kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(R.msg, sizeof(R.msg), fmt, ap);
    va_end(ap);
    if (!R.active) { fprintf(stderr, "mc_fail outside execution: %s\n", R.msg); abort(); }
    finish(kind);
}

/* ------------------------------------------------------------- objects */
#define OBJH 16384
static Obj objs[OBJH]; static int obj_used[OBJH]; static int nobj_used;
static Obj *obj_find(uintptr_t a, int kind) {
    uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
    for (;; h = (h + 1) & (OBJH - 1)) {
        if (objs[h].addr == a && objs[h].kind == kind) return &objs[h];
        if (!objs[h].addr) {
            if (nobj_used > OBJH / 2) mc_fail(MC_SYNC, "too many synchronisation objects");
            obj_used[nobj_used++] = (int)h;
            memset(&objs[h], 0, sizeof(Obj));
            objs[h].addr = a; objs[h].kind = kind; objs[h].owner = -1;
            objs[h].h = mix(a, kind);
            return &objs[h];
        }
    }
}
static void objs_reset(void) {
    for (int i = 0; i < nobj_used; i++) memset(&objs[obj_used[i]], 0, sizeof(Obj));
    nobj_used = 0;
}

static void vc_join(VC *a, const VC *b) { for (int i = 0; i < R.max_thr; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static Thr *cur(void) { return &R.t[R.ncur]; }
static void tick(Thr *t) { Clk *c = &t->vc.c[t - R.t]; ++*c; if (*c > R.maxclk) R.maxclk = *c; }
static void acquire(Obj *o) { if (o->has_vc) vc_join(&cur()->vc, &o->vc); }
static void release(Obj *o) { if (o->has_vc) vc_join(&o->vc, &cur()->vc); else { o->vc = cur()->vc; o->has_vc = 1; } tick(cur()); }
static void op_w(Obj *o, int op) { Thr *t = cur(); t->h = mix(mix(t->h, op), o->h); o->h = t->h; R.steps++; }
static void op_r(Obj *o, int op) { Thr *t = cur(); t->h = mix(mix(t->h, op), o->h); R.steps++; }
void mc_note_state(uint64_t h) { if (R.active) cur()->h = mix(cur()->h, h); }

/* ------------------------------------------------------------ scheduler */
static int enabled(int i) {
    Thr *t = &R.t[i];
    switch (t->st) {
    case T_RUN: return !t->want || t->want->owner < 0;
    case T_MUTEX: return t->want->owner < 0;
    case T_JOIN: return R.t[t->join_target].st == T_DONE;
    }
    return 0;
}
static uint64_t state_hash(void) {
    uint64_t h = mix(0x1234, R.ncur);
    if (R.o->policy == 2) h = mix(h, R.rr);
    for (int i = 0; i < R.nthr; i++) h = mix(h, mix(R.t[i].h, R.t[i].st));
    return h;
}
/* 1: newly visited with this remaining budget; 0: already covered */
static int visit(uint64_t h, int rem) {
    const uint64_t key = h & ~15ull; const uint64_t v = key | (uint64_t)(rem + 1);
    if (!key) return 1;
    uint64_t i = (h >> 7) & VMASK;
    for (int probe = 0; probe < 512; probe++, i = (i + 1) & VMASK) {
        uint64_t o = atomic_load_explicit(&VT[i], memory_order_relaxed);
    again:
        if (!o) {
            if (atomic_compare_exchange_strong(&VT[i], &o, v)) { atomic_fetch_add(&S->states, 1); return 1; }
            goto again;
        }
        if ((o & ~15ull) == key) {
            if ((o & 15) >= (uint64_t)(rem + 1)) return 0;
            if (atomic_compare_exchange_strong(&VT[i], &o, v)) return 1;
            goto again;
        }
    }
    return 1; /* table crowded: do not prune */
}

static int policy_pick(const int *en, int n, int cur_enabled) {
    switch (R.o->policy) {
    case 0: /* non-preemptive, round-robin at blocking points */
        if (cur_enabled) return R.ncur;
        for (int d = 1; d <= R.nthr; d++) for (int j = 0; j < n; j++) if (en[j] == (R.ncur + d) % R.nthr) return en[j];
        break;
    case 1: /* non-preemptive, highest thread first */
        if (cur_enabled) return R.ncur;
        return en[n - 1];
    case 2: /* fine-grained round robin */
        for (int d = 1; d <= R.nthr; d++) for (int j = 0; j < n; j++) if (en[j] == (int)((R.rr + d) % R.nthr)) { R.rr = en[j]; return en[j]; }
        break;
    case 3: return en[n - 1];   /* strict priority: highest id (last worker) first */
    case 4: return en[0];       /* strict priority: application thread first */
    case 5: { /* workers before the application, lowest worker first */
        for (int j = 0; j < n; j++) if (en[j]) return en[j];
        return en[0];
    }
    }
    return en[0];
}

static void cond_wake(Obj *c, int idx) {
    const int tid = c->waiters[idx];
    memmove(&c->waiters[idx], &c->waiters[idx + 1], (c->nw - idx - 1) * sizeof(int));
    c->nw--;
    R.t[tid].wait = NULL;
    R.t[tid].st = T_MUTEX;       /* must reacquire its mutex (->want) */
}

/* consult the schedule at a choice point with nopt options */
static int choose(int nopt) {
    const uint32_t cp = R.cp++;
    if (cp >= MAXCP) mc_fail(MC_STEPS, "more than %d choice points", MAXCP);
    if (R.dev_i < R.ndev) {
        if (R.dev_n[R.dev_i] == cp) {
            const int k = R.dev_k[R.dev_i++];
            return k < nopt ? k : 0;
        }
    } else if (R.explore) {
        if (!visit(state_hash(), R.rem)) { R.cp--; finish(MC_PRUNED); }
    }
    R.nopt[cp] = (uint8_t)nopt;
    return 0;
}

static void sched(void) {
    for (;;) {
        int en[MAXT], n = 0, cur_en = 0;
        for (int i = 0; i < R.nthr; i++) if (enabled(i)) { en[n++] = i; if (i == R.ncur) cur_en = 1; }
        if (!n) {
            char b[400]; int p = 0;
            static const char *nm[] = { "free", "run", "mutex", "cond", "join", "done" };
            for (int i = 0; i < R.nthr; i++) p += snprintf(b + p, sizeof(b) - p, " t%d:%s", i, nm[R.t[i].st]);
            mc_fail(MC_DEADLOCK, "deadlock:%s", b);
        }
        if (R.steps > MAXSTEPS) mc_fail(MC_STEPS, "no progress after %d steps", MAXSTEPS);
        int spur[MAXT], ns = 0;
        if (R.o->spurious) for (int i = 0; i < R.nthr; i++) if (R.t[i].st == T_COND) spur[ns++] = i;
        int pick;
        if (n + ns == 1) { pick = en[0]; if (R.o->policy == 2) R.rr = pick; }
        else {
            pick = policy_pick(en, n, cur_en);
            int k = choose(n + ns);
            if (k) {
                if (k < n) { /* k-th enabled thread other than the default */
                    int j = 0, c = 0;
                    for (; j < n; j++) if (en[j] != pick && ++c == k) break;
                    pick = en[j];
                    if (R.o->policy == 2) R.rr = pick;
                } else { /* spurious wake-up, then decide again */
                    Thr *t = &R.t[spur[k - n]];
                    Obj *c = t->wait;
                    for (int q = 0; q < c->nw; q++) if (c->waiters[q] == spur[k - n]) { cond_wake(c, q); break; }
                    t->h = mix(t->h, 0x5B5B);
                    continue;
                }
            }
        }
        if (pick != R.ncur) {
            const int prev = R.ncur;
            R.ncur = pick;
            mc_switch(&R.t[prev].sp, R.t[pick].sp);
        }
        return;
    }
}
static void point(void) { sched(); }

static void thr_entry(void) {
    Thr *t = cur();
    if (R.ncur == 0) { mc_scenario(R.arg);
        for (int i = 1; i < R.nthr; i++) if (R.t[i].st != T_DONE) mc_fail(MC_SYNC, "thread %d still alive after close", i);
        if (R.o->leakcheck && R.live) mc_fail(MC_LEAK, "%ld heap blocks leaked", R.live);
        finish(MC_OK);
    }
    t->ret = t->fn(t->arg);
    t = cur();
    t->h = mix(t->h, 0xDEAD); R.steps++;
    t->st = T_DONE;
    sched();
    __builtin_unreachable();
}
static int thr_new(void *(*fn)(void *), void *arg) {
    if (R.nthr >= MAXT) mc_fail(MC_SYNC, "too many threads for the runtime");
    const int id = R.nthr++;
    Thr *t = &R.t[id];
    memset(t, 0, sizeof(*t));
    t->fn = fn; t->arg = arg; t->st = T_RUN;
    t->h = mix(0x7777, id);
    t->heap = (uint8_t *)(HEAPS + (uint64_t)id * HEAP_SZ);
    for (int i = 0; i < MAXT; i++) t->vc.c[i] = 0;
    if (id) { t->vc = cur()->vc; }
    t->vc.c[id] = R.base + 1;
    void **sp = (void **)(STACKS + (uint64_t)(id + 1) * STACK_SZ - 64);
    *--sp = NULL;
    *--sp = (void *)thr_entry;
    for (int i = 0; i < 6; i++) *--sp = NULL;
    t->sp = sp;
    return id;
}

/* -------------------------------------------------------- memory + shadow */
#ifdef MC_FULL
#define LV(a) (*(uint8_t *)(LIVE + (((uintptr_t)(a) - BASE) >> 3)))
static void live_set(uintptr_t a, size_t n, int v) { memset((void *)(LIVE + ((a - BASE) >> 3)), v, (n + 7) >> 3); }
#endif
typedef struct { uint64_t magic; size_t size; uint32_t state, tid; uint64_t prev; } Hdr; /* 32 bytes */
#define HMAGIC 0xA110CA7EDA11DA7Aull
static int in_heap(const void *p) { return (uintptr_t)p >= HEAPS && (uintptr_t)p < BASE + REGION; }

static void *mc_alloc(size_t sz, size_t al) {
    Thr *t = cur();
    const long k = ++R.nalloc_all;
    if (k >= R.oom_first && k <= R.oom_last) return NULL;
    if (al < 16) al = 16;
    uintptr_t a = (uintptr_t)t->heap + t->heap_used + sizeof(Hdr) + 16;
    a = (a + al - 1) & ~(uintptr_t)(al - 1);
    const uint64_t end = a + ((sz + 15) & ~15ull) + 32 - (uintptr_t)t->heap;
    if (end > HEAP_SZ) mc_fail(MC_MEM, "model-checking heap exhausted (allocating %zu)", sz);
    t->heap_used = end;
    Hdr *h = (Hdr *)(a - sizeof(Hdr));
    h->magic = HMAGIC; h->size = sz; h->state = 1; h->tid = R.ncur;
    memset((void *)a, 0xC5, sz < 512 ? sz : 512);
    memset((uint8_t *)a + sz, 0xE7, 16);
    R.live++;
#ifdef MC_FULL
    live_set(a, sz, 1);
#endif
    return (void *)a;
}
#ifdef MC_FULL
static void shadow_access(uintptr_t a, size_t n, int wr, int at, void *pc);
#endif
static void mc_free_(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)((uint8_t *)p - sizeof(Hdr));
    if (h->magic != HMAGIC) mc_fail(MC_MEM, "free() of a pointer that is not a heap block");
    if (h->state != 1) mc_fail(MC_MEM, "double free");
    for (int i = 0; i < 16; i++) if (((uint8_t *)p + h->size)[i] != 0xE7) mc_fail(MC_MEM, "heap overrun past a %zu-byte block", h->size);
#ifdef MC_FULL
    shadow_access((uintptr_t)p, h->size, 1, 0, __builtin_return_address(0));
    live_set((uintptr_t)p, h->size, 2);
#endif
    h->state = 2;
    memset(p, 0xDD, h->size < 16384 ? h->size : 16384);
    R.live--;
}
void *__wrap_malloc(size_t n) { return R.active ? mc_alloc(n, 16) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    if (!R.active) return __real_calloc(a, b);
    void *p = mc_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n) {
    if (!R.active) return __real_posix_memalign(o, al, n);
    void *p = mc_alloc(n, al); if (!p) return ENOMEM; *o = p; return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return R.active ? mc_alloc(n, al) : __real_aligned_alloc(al, n); }
void __wrap_free(void *p) { if (in_heap(p)) { if (R.active) mc_free_(p); } else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!R.active) return __real_realloc(p, n);
    if (!p) return mc_alloc(n, 16);
    Hdr *h = (Hdr *)((uint8_t *)p - sizeof(Hdr));
    if (!in_heap(p) || h->magic != HMAGIC || h->state != 1) mc_fail(MC_MEM, "realloc of an invalid block");
    void *q = mc_alloc(n, 16); if (!q) return NULL;
    memcpy(q, p, h->size < n ? h->size : n);
    mc_free_(p);
    return q;
}
void mc_oom(long a, long b) { R.oom_first = a; R.oom_last = b; }
long mc_alloc_count(void) { return R.nalloc_all; }
long mc_live_blocks(void) { return R.live; }

/* --------------------------------------------------------------- pthreads */
#define PASS(...) do { if (!R.active) return 0; } while (0)
static Obj *mtx(pthread_mutex_t *m) {
    Obj *o = obj_find((uintptr_t)m, 1);
    if (o->destroyed) mc_fail(MC_SYNC, "use of a destroyed mutex");
    return o;
}
static Obj *cnd(pthread_cond_t *c) {
    Obj *o = obj_find((uintptr_t)c, 2);
    if (o->destroyed) mc_fail(MC_SYNC, "use of a destroyed condition variable");
    return o;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; PASS(); Obj *o = obj_find((uintptr_t)m, 1); o->destroyed = 0; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    PASS(); Obj *o = mtx(m);
    if (o->owner >= 0) mc_fail(MC_SYNC, "destroying a locked mutex");
    for (int i = 0; i < R.nthr; i++) if (R.t[i].want == o && i != R.ncur) mc_fail(MC_SYNC, "destroying a mutex another thread waits for");
    o->destroyed = 1; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    PASS(); Obj *o = mtx(m); Thr *t = cur();
    if (o->owner == R.ncur) mc_fail(MC_DEADLOCK, "thread %d locks a mutex it already holds", R.ncur);
    t->want = o;
    point();
    t->want = NULL;
    if (o->destroyed) mc_fail(MC_SYNC, "locking a destroyed mutex");
    o->owner = R.ncur;
    op_w(o, 1); acquire(o);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    PASS(); Obj *o = mtx(m);
    point();
    op_w(o, 9);
    if (o->owner >= 0) return EBUSY;
    o->owner = R.ncur; acquire(o);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    PASS(); Obj *o = mtx(m);
    if (o->owner != R.ncur) mc_fail(MC_SYNC, "unlocking a mutex not held (holder %d, caller %d)", o->owner, R.ncur);
    op_w(o, 2); release(o);
    o->owner = -1;
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; PASS(); Obj *o = obj_find((uintptr_t)c, 2); o->destroyed = 0; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    PASS(); Obj *o = cnd(c);
    if (o->nw) mc_fail(MC_SYNC, "destroying a condition variable with waiters");
    o->destroyed = 1; return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    PASS(); Obj *co = cnd(c), *mo = mtx(m); Thr *t = cur();
    if (mo->owner != R.ncur) mc_fail(MC_SYNC, "cond_wait without holding the mutex");
    op_w(co, 3); op_w(mo, 2); release(mo);
    mo->owner = -1;
    t->st = T_COND; t->wait = co; t->want = mo;
    co->waiters[co->nw++] = R.ncur;
    sched();
    t->want = NULL; t->st = T_RUN;
    mo->owner = R.ncur;
    op_w(mo, 1); acquire(mo);
    return 0;
}
static int cond_sig(pthread_cond_t *c, int all) {
    Obj *o = cnd(c);
    point();
    op_w(o, all ? 5 : 4);
    if (all) while (o->nw) cond_wake(o, 0);
    else if (o->nw) {
        int k = 0;
        if (o->nw > 1) { k = choose(o->nw); cur()->h = mix(cur()->h, 0x500 + k); o->h = cur()->h; }
        cond_wake(o, k);
    }
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { PASS(); return cond_sig(c, 0); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { PASS(); return cond_sig(c, 1); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void)a;
    if (!R.active) { fprintf(stderr, "pthread_create outside an execution\n"); abort(); }
    Obj *o = obj_find(0x10, 4);
    point();
    if (R.oom_first == -77 && 0) return EAGAIN;
    op_w(o, 6);
    const int id = thr_new(fn, arg);
    R.t[id].h = mix(R.t[id].h, cur()->h);
    tick(cur());
    *t = (pthread_t)(uintptr_t)(id + 0x100);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
    PASS();
    const int id = (int)((uintptr_t)t - 0x100);
    if (id <= 0 || id >= R.nthr || R.t[id].joined) mc_fail(MC_SYNC, "joining an invalid thread");
    cur()->st = T_JOIN; cur()->join_target = id;
    sched();
    cur()->st = T_RUN;
    R.t[id].joined = 1;
    vc_join(&cur()->vc, &R.t[id].vc);
    cur()->h = mix(cur()->h, R.t[id].h); R.steps++;
    if (ret) *ret = R.t[id].ret;
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!R.active) { if (!*(int *)o) { *(int *)o = 1; fn(); } return 0; }
    Obj *ob = obj_find((uintptr_t)o, 1);
    cur()->want = ob; point(); cur()->want = NULL;
    ob->owner = R.ncur; op_w(ob, 7); acquire(ob);
    if (!*(int *)o) { fn(); *(int *)o = 2; }
    release(ob); ob->owner = -1;
    return 0;
}
static void *spawn_tramp(void *p) { void **a = p; ((void (*)(void *))a[0])(a[1]); return NULL; }
static void *spawn_args[MAXT][2];
void mc_thread_spawn(void (*fn)(void *), void *arg, int *id) {
    pthread_t t; void **a = spawn_args[R.nthr]; a[0] = (void *)fn; a[1] = arg;
    __wrap_pthread_create(&t, NULL, spawn_tramp, a);
    *id = (int)((uintptr_t)t - 0x100);
}
void mc_thread_join(int id) { __wrap_pthread_join((pthread_t)(uintptr_t)(id + 0x100), NULL); }

/* ---------------------------------------------------------------- shadow */
#ifdef MC_FULL
extern char __data_start[], _end[];
static uint64_t *gshadow;        /* for .data/.bss */
/* shadow word: low 32 bits last write, high 32 bits reads.
 * epoch: [31] atomic  [30:27] tid  [26:0] clock;  reads: 0xF tid = shared index */
#define EP(tid, clk, at) ((uint32_t)(at) << 31 | (uint32_t)(tid) << 27 | (clk))
#define ETID(e) ((e) >> 27 & 15)
#define ECLK(e) ((e) & 0x7ffffff)
typedef struct { Clk c[MAXT]; uint32_t at; } RS;   /* shared-reader record */
static RS *rs; static uint32_t nrs; static uint32_t rs_base;
#define RSMAX (1u << 22)

static uint64_t *shadow_of(uintptr_t a) {
    if (a - BASE < REGION) return (uint64_t *)(SHADOW + (a - BASE) * 8);
    if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) return gshadow + (a - (uintptr_t)__data_start);
    return NULL;
}
static void race(uintptr_t a, const char *what, int other, void *pc) {
    mc_fail(MC_RACE, "data race: %s by thread %d (pc %p) conflicts with thread %d, no ordering between them; addr off %llx",
            what, R.ncur, pc, other, (unsigned long long)(a - BASE));
}
static int hb(uint32_t e) { return ECLK(e) <= R.base || cur()->vc.c[ETID(e)] >= ECLK(e); }

static void shadow_access(uintptr_t a, size_t n, int wr, int at, void *pc) {
    if (!R.active || !n) return;
    uint64_t *s = shadow_of(a);
    if (!s) return;
    Thr *t = cur();
    if (a >= HEAPS && a - BASE < REGION) {
        /* liveness: first and last granule, plus interior for big ranges */
        const uint8_t l0 = LV(a), l1 = LV(a + n - 1);
        if (l0 != 1 || l1 != 1) {
            const int v = l0 != 1 ? l0 : l1;
            mc_fail(MC_MEM, "%s of %zu bytes %s (pc %p)", wr ? "write" : "read", n, v == 2 ? "in freed memory" : "outside any live block", pc);
        }
    }
    const int me = R.ncur;
    const Clk clk = t->vc.c[me];
    const uint32_t ep = EP(me, clk, at);
    uint64_t last_in = ~0ull, last_out = 0;
    for (size_t i = 0; i < n; i++) {
        const uint64_t v = s[i];
        if (v == last_in) { s[i] = last_out; continue; }
        last_in = v;
        uint32_t w = (uint32_t)v, r = (uint32_t)(v >> 32);
        /* conflicting write */
        if (w && ETID(w) != (uint32_t)me && !(at && (w >> 31)) && !hb(w))
            race(a + i, wr ? "write" : "read", ETID(w), pc);
        if (wr) {
            if (r) {
                if (ETID(r) == 15) {
                    if (ECLK(r) >= rs_base) {
                        const RS *x = &rs[ECLK(r) - rs_base];
                        for (int k = 0; k < R.max_thr; k++)
                            if (k != me && x->c[k] && t->vc.c[k] < x->c[k] && !(at && (x->at >> k & 1))) race(a + i, "write", k, pc);
                    }
                } else if (ETID(r) != (uint32_t)me && !(at && (r >> 31)) && !hb(r)) race(a + i, "write after read", ETID(r), pc);
            }
            w = ep; r = 0;
        } else {
            if (!r || (ETID(r) != 15 && (ETID(r) == (uint32_t)me || ECLK(r) <= R.base || hb(r)))) {
                if (r && ETID(r) == (uint32_t)me && ECLK(r) == clk && !(r >> 31) ) {} else r = ep;
            } else if (ETID(r) == 15 && ECLK(r) < rs_base) r = ep;
            else {
                RS x;
                if (ETID(r) == 15) { x = rs[ECLK(r) - rs_base]; if (x.c[me] == clk) goto same; }
                else { memset(&x, 0, sizeof(x)); x.c[ETID(r)] = ECLK(r); if (r >> 31) x.at |= 1u << ETID(r); }
                x.c[me] = clk; if (at) x.at |= 1u << me; else x.at &= ~(1u << me);
                if (nrs < RSMAX) { rs[nrs] = x; r = 15u << 27 | (rs_base + nrs); nrs++; }
            same:;
            }
        }
        last_out = (uint64_t)r << 32 | w;
        s[i] = last_out;
    }
}
static void shadow_reset(void) {
    /* epochs older than R.base are ignored; shared records older than rs_base too */
    rs_base += nrs; nrs = 0;
    if (rs_base + RSMAX >= 0x7ffffff || R.base > 0x6000000) {
        /* renumber: wipe everything */
        madvise((void *)SHADOW, REGION * 8, MADV_DONTNEED);
        memset(gshadow, 0, (_end - __data_start) * 8);
        rs_base = 0; R.maxclk = R.base = 0;
    }
}
#define RA __builtin_return_address(0)
#define DEF(n) \
void __tsan_read##n(void *a) { shadow_access((uintptr_t)a, n, 0, 0, RA); } \
void __tsan_write##n(void *a) { shadow_access((uintptr_t)a, n, 1, 0, RA); } \
void __tsan_unaligned_read##n(void *a) { shadow_access((uintptr_t)a, n, 0, 0, RA); } \
void __tsan_unaligned_write##n(void *a) { shadow_access((uintptr_t)a, n, 1, 0, RA); } \
void __tsan_read_write##n(void *a) { shadow_access((uintptr_t)a, n, 1, 0, RA); } \
void __tsan_unaligned_read_write##n(void *a) { shadow_access((uintptr_t)a, n, 1, 0, RA); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
void *__tsan_memcpy(void *d, const void *s, size_t n) { shadow_access((uintptr_t)s, n, 0, 0, RA); shadow_access((uintptr_t)d, n, 1, 0, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { shadow_access((uintptr_t)s, n, 0, 0, RA); shadow_access((uintptr_t)d, n, 1, 0, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { shadow_access((uintptr_t)d, n, 1, 0, RA); return memset(d, c, n); }
void __tsan_vptr_read(void *a) { (void)a; }
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
#define SH(a, n, wr) shadow_access((uintptr_t)(a), n, wr, 1, RA)
#else
#define SH(a, n, wr) ((void)0)
#endif
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}

/* ---------------------------------------------------------------- atomics */
#define ACQ(mo) ((mo) != 0 && (mo) != 3)          /* relaxed=0 consume=1 acquire=2 release=3 acq_rel=4 seq_cst=5 */
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
static void a_pre(void) { if (R.active) point(); }
static void a_load(Obj *o, int mo) { op_r(o, 11); if (ACQ(mo)) acquire(o); }
static void a_store(Obj *o, int mo) { op_w(o, 12); if (REL(mo)) { o->vc = cur()->vc; o->has_vc = 1; tick(cur()); } else o->has_vc = 0; }
static void a_rmw(Obj *o, int mo) { op_w(o, 13); if (ACQ(mo)) acquire(o); if (REL(mo)) release(o); }
#define OB(a) obj_find((uintptr_t)(a), 3)
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { a_pre(); T v = *a; if (R.active) { a_load(OB(a), mo); SH(a, sizeof(T), 0); } return v; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { a_pre(); if (R.active) { a_store(OB(a), mo); SH(a, sizeof(T), 1); } *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { a_pre(); T o = *a; if (R.active) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } *a = o ^ v; return o; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    a_pre(); T o = *a; if (R.active) { if (o == c) { a_rmw(OB(a), mo); SH(a, sizeof(T), 1); } else { a_load(OB(a), fmo); SH(a, sizeof(T), 0); } } if (o == c) *a = v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    T e = *c; T o = __tsan_atomic##bits##_compare_exchange_val(a, e, v, mo, fmo); if (o == e) return 1; *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (R.active) { Obj *o = obj_find(0x20, 3); point(); op_w(o, 14); if (ACQ(mo)) acquire(o); if (REL(mo)) release(o); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- running */
static int setup_done;
static void crash(int sig, siginfo_t *si, void *uc);
static void setup(void) {
    if (setup_done) return;
    setup_done = 1;
    void *p = mmap((void *)BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
#ifdef MC_FULL
    p = mmap((void *)SHADOW, REGION * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap shadow"); exit(2); }
    p = mmap((void *)LIVE, REGION / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap live"); exit(2); }
    gshadow = mmap(NULL, (_end - __data_start) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    rs = mmap(NULL, RSMAX * sizeof(RS), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#endif
    R.nopt = mmap(NULL, MAXCP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stack_t ss; ss.ss_size = 1 << 18; ss.ss_sp = mmap(NULL, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_flags = 0;
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    static const int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTRAP };
    for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, NULL);
    R.max_thr = MAXT;
    void *bt[4]; backtrace(bt, 4);
}

static void publish(int kind, const char *msg) {
    int z = 0;
    if (!S || !atomic_compare_exchange_strong(&S->viol, &z, 1)) return;
    S->kind = kind; snprintf(S->msg, sizeof(S->msg), "%s", msg);
    for (int i = 0; i < R.ndev; i++) { S->bad.n[i] = R.dev_n[i]; S->bad.k[i] = R.dev_k[i]; }
    S->bad.nd = R.ndev;
    atomic_store(&S->stop, 1);
}
static volatile int crashing;
static void crash(int sig, siginfo_t *si, void *uc) {
    (void)uc;
    if (!R.active || crashing) { signal(sig, SIG_DFL); raise(sig); _exit(99); }
    crashing = 1;
    char b[256]; snprintf(b, sizeof(b), "signal %d (%s) in thread %d", sig, sig == SIGABRT ? "assertion/abort" : sig == SIGSEGV ? "segmentation fault" : "fault", R.ncur);
    if (R.o && R.o->verbose) { void *bt[30]; int n = backtrace(bt, 30); backtrace_symbols_fd(bt, n, 2); }
    (void)si;
    if (S) { publish(MC_CRASH, b); _exit(0); }
    /* single run: return to the controller */
    snprintf(R.msg, sizeof(R.msg), "%s", b);
    R.result = MC_CRASH;
    sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_SETMASK, &ss, NULL);
    void *d; crashing = 0; mc_switch(&d, R.ctl_sp);
}

static void run_exec(void) {
    R.cp = 0; R.steps = 0; R.dev_i = 0; R.result = -1; R.msg[0] = 0;
    R.nthr = 0; R.ncur = 0; R.rr = 0; R.nalloc_all = 0; R.live = 0;
    R.oom_first = R.oom_last = 0;
    objs_reset();
    R.base = R.maxclk;
#ifdef MC_FULL
    shadow_reset();
    for (int i = 0; i < MAXT; i++) if (R.t[i].heap_used) memset((void *)(LIVE + ((HEAPS + (uint64_t)i * HEAP_SZ - BASE) >> 3)), 0, (R.t[i].heap_used >> 3) + 1);
#endif
    for (int i = 0; i < MAXT; i++) R.t[i].heap_used = 0;
    thr_new(NULL, NULL);
    R.active = 1;
    mc_switch(&R.ctl_sp, R.t[0].sp);
    R.active = 0;
}

static void parse_sched(const char *s) {
    R.ndev = 0;
    while (s && *s && R.ndev < MAXDEV) {
        unsigned n, k; int used = 0;
        if (sscanf(s, "%u:%u%n", &n, &k, &used) < 2) break;
        R.dev_n[R.ndev] = n; R.dev_k[R.ndev++] = (uint8_t)k;
        s += used; if (*s == ',') s++;
    }
}
static void fmt_sched(char *b, size_t n, const Item *it) {
    size_t p = 0; b[0] = 0;
    for (int i = 0; i < it->nd && p < n - 24; i++) p += snprintf(b + p, n - p, "%s%u:%u", i ? "," : "", it->n[i], it->k[i]);
}

int mc_run_once(const McOpts *o, void *arg, McResult *r) {
    setup();
    Shared *sv = S; S = NULL;
    R.o = o; R.arg = arg; R.explore = 0;
    parse_sched(o->replay);
    run_exec();
    S = sv;
    if (r) {
        memset(r, 0, sizeof(*r));
        r->kind = R.result; snprintf(r->msg, sizeof(r->msg), "%s", R.msg);
        r->steps = R.steps; r->choice_points = R.cp; r->max_threads = R.nthr; r->execs = 1;
    }
    return R.result;
}

static void push_children(const Item *it) {
    const uint32_t from = it->nd ? it->n[it->nd - 1] + 1 : 0;
    if (it->nd >= R.o->bound || it->nd >= MAXDEV) return;
    uint64_t cnt = 0;
    for (uint32_t c = from; c < R.cp; c++) cnt += R.nopt[c] - 1;
    if (!cnt) return;
    uint64_t at = atomic_fetch_add(&S->tail, cnt);
    if (at + cnt > QCAP) { atomic_store(&S->overflow, 1); atomic_fetch_sub(&S->tail, cnt); return; }
    for (uint32_t c = from; c < R.cp; c++) for (int k = 1; k < R.nopt[c]; k++) {
        Item *q = &Q[at++];
        *q = *it; q->n[q->nd] = c; q->k[q->nd] = (uint8_t)k; q->nd++;
    }
}

static void worker(double deadline) {
    for (;;) {
        if (atomic_load(&S->stop)) return;
        uint64_t i = atomic_fetch_add(&S->head, 1);
        if (i >= atomic_load(&S->level_end)) {
            /* level exhausted: barrier */
            atomic_fetch_sub(&S->head, 1);
            const int lvl = atomic_load(&S->level);
            if (atomic_fetch_add(&S->waiting, 1) + 1 == (uint64_t)R.o->workers) {
                const uint64_t t = atomic_load(&S->tail);
                if (t == atomic_load(&S->level_end)) { atomic_fetch_add(&S->level, 1); atomic_store(&S->done, 1); atomic_store(&S->stop, 1); return; }
                atomic_store(&S->head, atomic_load(&S->level_end));
                atomic_store(&S->waiting, 0);
                atomic_store(&S->level_end, t);
                atomic_fetch_add(&S->level, 1);
            } else {
                while (atomic_load(&S->level) == lvl && !atomic_load(&S->stop)) usleep(200);
            }
            continue;
        }
        const Item it = Q[i];
        R.ndev = it.nd;
        for (int k = 0; k < it.nd; k++) { R.dev_n[k] = it.n[k]; R.dev_k[k] = it.k[k]; }
        R.rem = R.o->bound - it.nd;
        R.explore = 1;
        run_exec();
        atomic_fetch_add(&S->execs, 1);
        atomic_fetch_add(&S->steps, R.steps);
        atomic_fetch_add(&S->cps, R.cp);
        uint64_t m = atomic_load(&S->max_cp); while (R.cp > m && !atomic_compare_exchange_weak(&S->max_cp, &m, R.cp));
        m = atomic_load(&S->max_steps); while (R.steps > m && !atomic_compare_exchange_weak(&S->max_steps, &m, R.steps));
        if (R.nthr > atomic_load(&S->maxthr)) atomic_store(&S->maxthr, R.nthr);
        if (R.result == MC_PRUNED) atomic_fetch_add(&S->pruned, 1);
        else if (R.result != MC_OK) { publish(R.result, R.msg); return; }
        push_children(&it);
        if (now() > deadline) { atomic_store(&S->timeup, 1); atomic_store(&S->stop, 1); return; }
    }
}

void mc_explore(const McOpts *o, void *arg, McResult *r) {
    setup();
    memset(r, 0, sizeof(*r));
    const double t0 = now();
    const uint64_t vn = 1ull << (o->state_bits ? o->state_bits : 25);
    QCAP = 40u << 20;
    S = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Q = mmap(NULL, QCAP * sizeof(Item), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VT = mmap(NULL, vn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VMASK = vn - 1;
    if (S == MAP_FAILED || Q == MAP_FAILED || VT == MAP_FAILED) { perror("mmap"); exit(2); }
    memset(S, 0, sizeof(*S));
    S->tail = 1; S->level_end = 1;
    R.o = o; R.arg = arg;
    pid_t pids[64];
    for (int w = 0; w < o->workers; w++) {
        pids[w] = fork();
        if (pids[w] == 0) { worker(t0 + o->seconds); _exit(0); }
    }
    int died = 0;
    for (int w = 0; w < o->workers; w++) {
        int st; 
        /* hard stop for executions that never return to the scheduler */
        for (;;) {
            pid_t p = waitpid(pids[w], &st, WNOHANG);
            if (p == pids[w]) break;
            if (now() > t0 + o->seconds + 30) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); died = 2; break; }
            usleep(2000);
        }
        if (WIFSIGNALED(st) && !died) { died = 1; atomic_store(&S->stop, 1); }
    }
    r->execs = S->execs; r->steps = S->steps; r->states = S->states; r->choice_points = S->cps; r->pruned = S->pruned;
    r->items_pushed = S->tail; r->max_cp = S->max_cp; r->max_steps = S->max_steps; r->max_threads = S->maxthr;
    r->exhausted = S->done && !S->overflow && !S->viol;
    r->completed_bound = S->done ? o->bound : S->level - 1;
    if (S->overflow && r->completed_bound > S->level - 1) r->completed_bound = S->level - 1;
    if (S->viol) { r->kind = S->kind; snprintf(r->msg, sizeof(r->msg), "%s", S->msg); fmt_sched(r->sched, sizeof(r->sched), &S->bad); }
    else if (died) { r->kind = died == 2 ? MC_STEPS : MC_CRASH; snprintf(r->msg, sizeof(r->msg), died == 2 ? "an execution did not terminate" : "exploration worker died"); }
    r->wall = now() - t0;
    munmap(S, sizeof(Shared)); munmap(Q, QCAP * sizeof(Item)); munmap((void *)VT, vn * 8);
    S = NULL;
}

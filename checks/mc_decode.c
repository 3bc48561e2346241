/* Schedule-exploring harness: drives the real decoder through its public API
 * under the controlled scheduler.
 *
 * usage: mc_decode bound seconds workers spec...      explore
 *        mc_decode replay spec schedule               re-run one schedule
 * spec:  stream,frames,driver,k,threads,delay,policy[,spurious[,seed]]
 */
#include "streams.h"
#include "mcrt.h"
#include <limits.h>
#include <time.h>

typedef struct {
    int stream, frames, driver, k, threads, delay, policy, spurious, seed;
    char txt[128];
} Spec;
enum { D_DEC, D_EAGER, D_HOLD, D_FLUSH, D_CLOSE, D_ERR, D_PEER, D_TWO, D_FLUSHEND, D_LATE, D_WORD, D_WORDP, D_FG, D_OOM, D_OOMP, D_NB };
static const char *const drv[] = { "dec", "eager", "hold", "flush", "close", "err", "peer", "two", "flushend", "late", "word", "wordp", "fg", "oom", "oomp" };

static Spec sp;
static Pkts pk, pk2;
static int bad_pkt = -1;
static Trace base, cur, cur2;
static int is_base;
static int freed[64];
static int nwrapped;

static void pkt_free(const uint8_t *d, void *c) { (void)d; ((int *)c)[0]++; }
static void fail_trace(const char *what, const Trace *a, const Trace *b) {
    int i = 0;
    while (i < a->n && i < b->n && !memcmp(&a->e[i], &b->e[i], sizeof(Ev))) i++;
    mc_fail(MC_MISMATCH, "%s: reference has %d results, this run %d; first difference at result %d (%s vs %s, ts %lld vs %lld, res %d vs %d)",
            what, a->n, b->n, i, i < a->n ? a->e[i].kind ? "error" : "picture" : "none", i < b->n ? b->e[i].kind ? "error" : "picture" : "none",
            i < a->n ? (long long)a->e[i].ts : 0, i < b->n ? (long long)b->e[i].ts : 0, i < a->n ? a->e[i].res : 0, i < b->n ? b->e[i].res : 0);
}
static Dav1dContext *open_dec(void) {
    Dav1dSettings s; Dav1dContext *c = NULL;
    dec_settings(&s, is_base ? 1 : sp.threads, is_base ? 1 : sp.delay);
    if (sp.driver == D_FG && !is_base) s.apply_grain = 0;
    if (dav1d_open(&c, &s)) mc_fail(MC_MISMATCH, "dav1d_open failed");
    return c;
}
static void send_one(Dav1dContext *c, const Pkt *k, Trace *t, int get) {
    Dav1dData d; memset(&d, 0, sizeof(d));
    if (dav1d_data_wrap(&d, k->p, k->n, pkt_free, &freed[nwrapped++])) mc_fail(MC_MISMATCH, "dav1d_data_wrap failed");
    d.m.timestamp = k->ts;
    for (int it = 0; d.sz > 0; it++) {
        if (it > 50) mc_fail(MC_STEPS, "packet not accepted after 50 rounds of send/get");
        int r = dav1d_send_data(c, &d);
        if (r < 0 && r != DAV1D_ERR(EAGAIN)) { tr_add(t, 1, r, 0, 0); dav1d_data_unref(&d); }
        if (get || r == DAV1D_ERR(EAGAIN)) dec_get(c, t);
    }
}
static Dav1dPicture held[32]; static uint64_t held_h[32]; static int nheld;
static void get_hold(Dav1dContext *c) {
    for (int it = 0; it < 100; it++) {
        Dav1dPicture p; memset(&p, 0, sizeof(p));
        int r = dav1d_get_picture(c, &p);
        if (r == DAV1D_ERR(EAGAIN)) return;
        if (r) { tr_add(&cur, 1, r, 0, 0); continue; }
        held_h[nheld] = pic_hash(&p); tr_add(&cur, 0, 0, held_h[nheld], p.m.timestamp);
        held[nheld++] = p;
    }
}
/* one retrieval; the application applies the grain itself, while other frames may be in flight */
static int get_grain(Dav1dContext *c) {
    Dav1dPicture p, o; memset(&p, 0, sizeof(p)); memset(&o, 0, sizeof(o));
    int r = dav1d_get_picture(c, &p);
    if (r) { if (r != DAV1D_ERR(EAGAIN)) tr_add(&cur, 1, r, 0, 0); return r; }
    held_h[nheld] = pic_hash(&p);
    if (dav1d_apply_grain(c, &o, &p)) mc_fail(MC_MISMATCH, "dav1d_apply_grain failed");
    tr_add(&cur, 0, 0, pic_hash(&o), o.m.timestamp); dav1d_picture_unref(&o);
    if (pic_hash(&p) != held_h[nheld]) mc_fail(MC_MISMATCH, "applying grain changed the grain-free picture");
    if (sp.k & 1) held[nheld++] = p; else dav1d_picture_unref(&p);
    return 0;
}
/* retrieval right after a send does not drain: one extra call, as in the documented loop */
static void drain_all(Dav1dContext *c) { dec_get(c, &cur); dec_drain(c, &cur); }
static void peer_fn(void *a) { Dav1dPicture *p = a; held_h[p - held] = pic_hash(p); dav1d_picture_unref(p); }
static void two_fn(void *a) {
    (void)a; Dav1dContext *c = open_dec();
    for (int i = 0; i < pk2.n; i++) dec_packet(c, pk2.v[i].p, pk2.v[i].n, pk2.v[i].ts, &cur2);
    dec_drain(c, &cur2); dav1d_close(&c);
}

/* k: index of the first failing allocation (oom: only that one; oomp: all from there to the end of the first stream) */
static void oom_scenario(void) {
    if (!is_base) mc_oom(sp.k, sp.driver == D_OOM ? sp.k : LONG_MAX);
    Dav1dSettings s; Dav1dContext *c = NULL; dec_settings(&s, is_base ? 1 : sp.threads, is_base ? 1 : sp.delay);
    int errs = 0, first = INT_MAX;
    if (dav1d_open(&c, &s)) {
        errs++; if (c) mc_fail(MC_MISMATCH, "failed dav1d_open left a context");
        mc_oom(0, 0); if (dav1d_open(&c, &s)) mc_fail(MC_MISMATCH, "dav1d_open fails with memory available again");
    }
    for (int i = 0; i < pk.n; i++) {
        const Pkt *k = &pk.v[i]; Dav1dData d; memset(&d, 0, sizeof(d));
        if (k->ts == 2000) { for (int e = 0, it = 0; e < 2 && it < 100; it++) { const int r = dec_get(c, &cur); if (r && r != DAV1D_ERR(EAGAIN) && !errs++) first = cur.n - 1; e = r == DAV1D_ERR(EAGAIN) ? e + 1 : 0; } if (!is_base) cur2.n = (int)mc_alloc_count(); mc_oom(0, 0); }
        if (dav1d_data_wrap(&d, k->p, k->n, pkt_free, &freed[nwrapped++])) { freed[nwrapped - 1] = 1; if (!errs++) first = cur.n; continue; }
        d.m.timestamp = k->ts;
        for (int it = 0; d.sz > 0; it++) {
            if (it > 50) mc_fail(MC_STEPS, "packet not accepted after 50 rounds of send/get");
            int r = dav1d_send_data(c, &d);
            if (r < 0 && r != DAV1D_ERR(EAGAIN)) { if (!errs++) first = cur.n; dav1d_data_unref(&d); }
            r = dec_get(c, &cur); if (r && r != DAV1D_ERR(EAGAIN)) { if (!errs++) first = cur.n - 1; }
        }
    }
    drain_all(c); dav1d_close(&c);
    for (int i = 0; i < nwrapped; i++) if (freed[i] != 1) mc_fail(MC_MISMATCH, "input buffer %d released %d times", i, freed[i]);
    if (is_base) { base = cur; return; }
    static Trace a, b; int n = 0; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b));
    for (int i = 0; i < base.n; i++) if (!base.e[i].kind && base.e[i].ts >= 2000) a.e[a.n++] = base.e[i]; else n++;
    for (int i = 0; i < cur.n; i++) {
        if (!cur.e[i].kind && cur.e[i].ts >= 2000) { b.e[b.n++] = cur.e[i]; continue; }
        if (i < first && (i >= n || memcmp(&cur.e[i], &base.e[i], sizeof(Ev)))) mc_fail(MC_MISMATCH, "result %d before the first error differs from the run without faults", i);
    }
    if (!errs && cur.n != base.n) mc_fail(MC_MISMATCH, "%d of %d results and no error returned", cur.n, base.n);
    if (!tr_eq(&a, &b)) fail_trace("after the memory shortage, from the next key frame on", &a, &b);
}
void mc_scenario(void *arg) {
    (void)arg;
    memset(&cur, 0, sizeof(cur)); memset(&cur2, 0, sizeof(cur2)); memset(freed, 0, sizeof(freed)); nwrapped = 0; nheld = 0;
    memset(held, 0, sizeof(held));
    if (sp.driver == D_OOM || sp.driver == D_OOMP) { oom_scenario(); return; }
    Dav1dContext *c = open_dec();
    Trace junk; memset(&junk, 0, sizeof(junk));
    Trace *cmp = &cur;
    switch (sp.driver) {
    case D_DEC: case D_EAGER: case D_ERR: case D_LATE:
        for (int i = 0; i < pk.n; i++) send_one(c, &pk.v[i], &cur, sp.driver != D_EAGER && (sp.driver != D_LATE || i >= sp.k));
        drain_all(c);
        break;
    case D_WORD: case D_WORDP: /* k in base 4: retrievals after each packet; wordp: two temporal units per packet */
        for (int i = 0, w = sp.k; i < pk.n; i++, w /= 4) {
            send_one(c, &pk.v[i], &cur, 0);
            for (int g = 0; g < w % 4; g++) dec_get(c, &cur);
        }
        drain_all(c);
        break;
    case D_FG: /* k: 1 hold the grain-free pictures to the end, 2 flush and decode again, 4 close with frames in flight */
        for (int round = 0; round < (sp.k & 2 ? 2 : 1); round++) {
            if (is_base) { cur.n = 0; for (int i = 0; i < pk.n; i++) send_one(c, &pk.v[i], &cur, 1); drain_all(c); dav1d_flush(c); continue; }
            cur.n = 0;
            for (int i = 0; i < pk.n; i++) {
                send_one(c, &pk.v[i], &cur, 0);
                if (i + 1 < pk.n || !(sp.k & 6) || round) get_grain(c);
            }
            if (sp.k & 2 && !round) { dav1d_flush(c); continue; }
            if (sp.k & 4) break;
            for (int e = 0; e < 2;) e = get_grain(c) == DAV1D_ERR(EAGAIN) ? e + 1 : 0;
        }
        break;
    case D_FLUSHEND:
        for (int i = 0; i < pk.n; i++) send_one(c, &pk.v[i], &cur, 1);
        dec_drain(c, &cur);
        dav1d_flush(c);
        dec_drain(c, &cur);
        break;
    case D_HOLD:
        for (int i = 0; i < pk.n; i++) { send_one(c, &pk.v[i], &cur, 0); if (sp.k) get_hold(c); }
        get_hold(c);
        break;
    case D_FLUSH:
        for (int i = 0; i < sp.k && !is_base; i++) send_one(c, &pk2.v[i], &junk, i & 1);
        if (!is_base) dav1d_flush(c);
        for (int i = 0; i < pk.n; i++) send_one(c, &pk.v[i], &cur, 1);
        dec_drain(c, &cur);
        break;
    case D_CLOSE:
        for (int i = 0; i < sp.k && i < pk.n; i++) send_one(c, &pk.v[i], &junk, i & 1);
        break;
    case D_PEER: {
        int ids[32], n = 0;
        for (int i = 0; i < pk.n; i++) {
            send_one(c, &pk.v[i], &cur, 0);
            int n0 = nheld; get_hold(c);
            for (int j = n0; j < nheld; j++) mc_thread_spawn(peer_fn, &held[j], &ids[n++]);
        }
        int n0 = nheld; get_hold(c);
        for (int j = n0; j < nheld; j++) mc_thread_spawn(peer_fn, &held[j], &ids[n++]);
        if (sp.k) dav1d_close(&c);
        for (int j = 0; j < n; j++) mc_thread_join(ids[j]);
        break; }
    case D_TWO: {
        int id = -1;
        if (!is_base) mc_thread_spawn(two_fn, NULL, &id);
        for (int i = 0; i < pk.n; i++) send_one(c, &pk.v[i], &cur, 1);
        dec_drain(c, &cur);
        if (!is_base) { mc_thread_join(id); }
        break; }
    }
    dav1d_close(&c);
    if (sp.driver == D_HOLD || sp.driver == D_FG) {
        for (int i = 0; i < nheld; i++)
            if (pic_hash(&held[i]) != held_h[i]) mc_fail(MC_MISMATCH, "picture %d held by the application changed", i);
        for (int i = 0; i < nheld; i++) dav1d_picture_unref(&held[i]);
    }
    for (int i = 0; i < nwrapped; i++) if (freed[i] != 1) mc_fail(MC_MISMATCH, "input buffer %d released %d times", i, freed[i]);
    if (is_base) { base = cur; return; }
    if (sp.driver == D_PEER)
        for (int i = 0; i < nheld; i++) if (held_h[i] != base.e[i].h) mc_fail(MC_MISMATCH, "picture %d read by a peer thread differs", i);
    if (sp.driver == D_ERR) {
        /* compare from the recovery key frame on (timestamps >= 1000+k+1 with k the damaged packet) */
        static Trace a, b; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b));
        for (int i = 0; i < base.n; i++) if (!base.e[i].kind && base.e[i].ts >= 2000) a.e[a.n++] = base.e[i];
        for (int i = 0; i < cur.n; i++) if (!cur.e[i].kind && cur.e[i].ts >= 2000) b.e[b.n++] = cur.e[i];
        if (!tr_eq(&a, &b)) fail_trace("after a damaged frame, from the next key frame on", &a, &b);
        int errs = 0; for (int i = 0; i < cur.n; i++) errs += cur.e[i].kind;
        if (!errs) mc_fail(MC_MISMATCH, "damaged frame never reported");
    } else if (sp.driver != D_CLOSE && !(sp.driver == D_FG && sp.k & 4) && !tr_eq(&base, cmp)) fail_trace("output differs from the single-threaded decoder", &base, cmp);
    if (sp.driver == D_TWO && !tr_eq(&base, &cur2)) fail_trace("second decoder: output differs", &base, &cur2);
}

static int seed_bump;
static int parse(const char *t) {
    char b[128], *s, *sv; snprintf(b, sizeof(b), "%s", t);
    memset(&sp, 0, sizeof(sp)); snprintf(sp.txt, sizeof(sp.txt), "%s", t);
    int i = 0;
    for (s = strtok_r(b, ",", &sv); s; s = strtok_r(NULL, ",", &sv), i++) {
        int v = atoi(s);
        if (i == 0) { for (v = 0; v < ST_NB && strcmp(st_name[v], s); v++); if (v == ST_NB) return -1; sp.stream = v; }
        else if (i == 1) sp.frames = v;
        else if (i == 2) { for (v = 0; v < D_NB && strcmp(drv[v], s); v++); if (v == D_NB) return -1; sp.driver = v; }
        else if (i == 3) sp.k = v; else if (i == 4) sp.threads = v; else if (i == 5) sp.delay = v;
        else if (i == 6) sp.policy = v; else if (i == 7) sp.spurious = v; else if (i == 8) sp.seed = v;
    }
    pk_free(&pk); pk_free(&pk2);
    const uint64_t seed = (getenv("MC_SEED") ? strtoull(getenv("MC_SEED"), NULL, 10) : 1) + (sp.seed + seed_bump) * 97;
    st_build(sp.stream, sp.frames - 1, seed, &pk);
    if (sp.driver == D_WORDP) {
        int m = 0; for (int j = 0; j < pk.n; j += 2, m++) {
            AwBuf b = { 0 }; awb_put(&b, pk.v[j].p, pk.v[j].n); if (j + 1 < pk.n) awb_put(&b, pk.v[j + 1].p, pk.v[j + 1].n);
            uint8_t *q = malloc(b.n); memcpy(q, b.p, b.n); size_t n = b.n; awb_free(&b);
            if (j > m) { free(pk.v[m].p); } else free(pk.v[j].p);
            if (j + 1 < pk.n) { free(pk.v[j + 1].p); pk.v[j + 1].p = NULL; }
            if (j > m) pk.v[j].p = NULL;
            pk.v[m].p = q; pk.v[m].n = n; pk.v[m].ts = 1000 + m;
        }
        pk.n = m;
    }
    if (sp.driver == D_FLUSH) st_build(sp.stream, sp.frames + 2, seed + 1000, &pk2);
    if (sp.driver == D_TWO) st_build(sp.stream, sp.frames - 1, seed, &pk2);
    if (sp.driver == D_ERR || sp.driver == D_OOM || sp.driver == D_OOMP) {
        /* frame k has almost no tile data; then a fresh stream starting with a key frame */
        pk_free(&pk); if (sp.driver == D_ERR) g_short_frame = sp.k; st_build(sp.stream, sp.frames - 1, seed, &pk); g_short_frame = -1;
        Pkts more; st_build(sp.stream, 1, seed + 2000, &more);
        for (int i = 0; i < more.n; i++) { AwBuf b = { more.v[i].p, more.v[i].n, 0 }; pk_add(&pk, &b); pk.v[pk.n - 1].ts = 2000 + i; }
        pk_free(&more);
    }
    return i < 7 ? -1 : 0;
}
static void js(const char *s) { for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((unsigned char)*s >= 32) putchar(*s); } }
static int print_res(const McResult *r, const char *spec, int bound) {
    printf("{\"spec\":\"%s\",\"kind\":%d,\"msg\":\"", spec, r->kind); js(r->msg);
    printf("\",\"sched\":\"%s\",\"execs\":%llu,\"steps\":%llu,\"states\":%llu,\"choice_points\":%llu,\"pruned\":%llu,\"bound\":%d,\"completed_bound\":%d,\"exhausted\":%d,\"max_cp\":%llu,\"max_steps\":%llu,\"threads\":%d,\"wall\":%.2f,\"results\":%d,\"pics\":\"%016llx\"}\n",
           r->sched, (unsigned long long)r->execs, (unsigned long long)r->steps, (unsigned long long)r->states, (unsigned long long)r->choice_points,
           (unsigned long long)r->pruned, bound, r->completed_bound, r->exhausted, (unsigned long long)r->max_cp, (unsigned long long)r->max_steps, r->max_threads, r->wall,
           base.n, (unsigned long long)h64(H0, base.e, sizeof(Ev) * base.n));
    fflush(stdout);
    return r->kind != MC_OK;
}
static int baseline(McResult *r) {
    McOpts o = { .policy = 0 };
    char spec[128]; snprintf(spec, sizeof(spec), "%s", sp.txt);
    for (seed_bump = 0;; seed_bump += 1000) {
        if (seed_bump) parse(spec);
        is_base = 1; int k = mc_run_once(&o, NULL, r); is_base = 0;
        /* a packet with several frames of which one is damaged legitimately behaves
         * differently with and without frame threading: use another payload */
        int bad = 0; for (int i = 0; i < base.n; i++) bad |= base.e[i].kind;
        if (k || !bad || sp.driver != D_WORDP || seed_bump > 20000) return k;
    }
}
int main(int argc, char **argv) {
    if (argc >= 4 && !strcmp(argv[1], "replay")) {
        seed_bump = 0; if (parse(argv[2])) return 2;
        McResult r; int k = baseline(&r);
        if (k) { print_res(&r, argv[2], 0); return 1; }
        tr_print(stderr, "reference ", &base);
        McOpts o = { .policy = sp.policy, .spurious = sp.spurious, .replay = argv[3], .verbose = 1, .leakcheck = 1 };
        mc_run_once(&o, NULL, &r);
        tr_print(stderr, "run ", &cur);
        return print_res(&r, argv[2], 0);
    }
    if (argc == 3 && !strcmp(argv[1], "count")) { /* allocations up to the end of the first stream, in the base schedule without faults */
        seed_bump = 0; if (parse(argv[2])) return 2;
        McResult r; if (baseline(&r)) return 2;
        sp.k = 1 << 30; McOpts o = { .policy = sp.policy }; mc_run_once(&o, NULL, &r); printf("%d\n", cur2.n); return r.kind != MC_OK;
    }
    if (argc < 5) return 2;
    int bad = 0;
    for (int i = 4; i < argc && !bad; i++) {
        McResult r;
        seed_bump = 0; if (parse(argv[i])) { fprintf(stderr, "bad spec %s\n", argv[i]); return 2; }
        if (baseline(&r)) { bad |= print_res(&r, argv[i], 0); break; }
        McOpts o = { .policy = sp.policy, .spurious = sp.spurious, .bound = atoi(argv[1]), .seconds = atof(argv[2]), .workers = atoi(argv[3]), .leakcheck = 1, .state_bits = getenv("MC_STATE_BITS") ? atoi(getenv("MC_STATE_BITS")) : 0 };
        mc_explore(&o, NULL, &r);
        bad |= print_res(&r, argv[i], o.bound);
    }
    return bad;
}

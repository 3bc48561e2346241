/* S09: every allocation fails once, or from some point on, on the real library. */
#include <pthread.h>
#include <malloc.h>
#include "streams.h"
#include "enumh.h"
#include "palloc.h"

/* ---- fault injection: everything the library asks the system for */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
static __thread int lib;                     /* in the application thread: inside a library call */
static __thread int app;                     /* this is the application thread or one of its callbacks */
static atomic_long nalloc, live; static long f_first, f_last; static atomic_int fired; static int f_sync;
#define IN_LIB (lib || !app)
static int fails(void) { const long k = atomic_fetch_add(&nalloc, 1) + 1; if (k >= f_first && k <= f_last) { atomic_fetch_add(&fired, 1); return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (!IN_LIB) return __real_malloc(n); if (fails()) return NULL; void *p = __real_malloc(n); if (p) { atomic_fetch_add(&live, 1); memset(p, 0xC3, n < 65536 ? n : 65536); } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!IN_LIB) return __real_calloc(a, b); if (fails()) return NULL; void *p = __real_calloc(a, b); if (p) atomic_fetch_add(&live, 1); return p; }
void *__wrap_realloc(void *q, size_t n) { if (!IN_LIB) return __real_realloc(q, n); if (fails()) return NULL; void *p = __real_realloc(q, n); if (p && !q) atomic_fetch_add(&live, 1); return p; }
int __wrap_posix_memalign(void **o, size_t al, size_t n) { if (!IN_LIB) return __real_posix_memalign(o, al, n); if (fails()) return ENOMEM; int r = __real_posix_memalign(o, al, n); if (!r) atomic_fetch_add(&live, 1); return r; }
void __wrap_free(void *p) { if (p && IN_LIB) atomic_fetch_sub(&live, 1); __real_free(p); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { if (f_sync && IN_LIB && fails()) return EAGAIN; return __real_pthread_create(t, a, fn, arg); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (f_sync && IN_LIB && fails()) return ENOMEM; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { if (f_sync && IN_LIB && fails()) return ENOMEM; return __real_pthread_cond_init(m, a); }
#define L(x) (lib = 1, (x)), lib = 0
/* picture allocator callbacks run as the application; their failures count as allocations too */
static PA pa;
static int cb_alloc(Dav1dPicture *p, void *c) { const int a = app, l = lib; app = 1; lib = 0; int r = fails() ? DAV1D_ERR(ENOMEM) : pa_alloc(p, c); app = a; lib = l; return r; }
static void cb_release(Dav1dPicture *p, void *c) { const int a = app, l = lib; app = 1; lib = 0; pa_release(p, c); app = a; lib = l; }

/* ---- streams: metadata, hidden/shown frames, grain, segmentation, size changes */
enum { NSTR = 32 };
static Pkts pk[NSTR], rec; static const char *sname[NSTR]; static int ns;
static void add(int id, int n) { /* random payloads are not always valid */
    for (uint64_t seed = en_seed + id;; seed += 1000) {
        st_build(id, n, seed, &pk[ns]);
        Dav1dSettings s; static Trace t; dec_settings(&s, 1, 1); if (dec_all(&s, &pk[ns], &t)) exit(2);
        int bad = 0; for (int i = 0; i < t.n; i++) bad |= t.e[i].kind;
        if (!bad) break;
        pk_free(&pk[ns]);
    }
    sname[ns++] = st_name[id];
}
/* the decoder's cached buffers change size from one sequence to the next: small, large, small, large, recovery is small again */
static void switch_stream(int id) {
    static char nm[NSTR][40]; snprintf(nm[ns], 40, "segmentation+%s", st_name[id]);
    Pkts *o = &pk[ns + 1]; const int at = ns; memset(&pk[at], 0, sizeof(pk[at]));
    for (int r = 0; r < 4; r++) {
        ns = at + 1; add(r & 1 ? id : ST_SEG, r == 0);
        for (int i = 0; i < o->n; i++) { AwBuf b = { o->v[i].p, o->v[i].n, 0 }; pk_add(&pk[at], &b); }
        pk_free(o);
    }
    ns = at; sname[ns++] = nm[at];
}
static void meta_stream(int v) {
    static const uint16_t prim[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 6 } }, wp[2] = { 7, 8 };
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f; Pkts *k = &pk[ns]; sname[ns++] = v ? "meta2" : "meta";
    aw_seq_default(&e->seq, 16, 16); e->seq.fg = 1;
    for (int i = 0; i < 6; i++) {
        b.n = 0; aw_put_td(&b); const uint8_t t35[6] = { 9, 8, 7, i, 1, 0x80 };
        if (i == 0 || (v && i == 3)) { if (i) { e->seq.w = 24; for (int j = 0; j < 8; j++) e->ref[j].valid = 0; } aw_put_seq(e, &b); aw_put_cll(&b, 100 + i, 50); aw_put_mdcv(&b, prim, wp, 100 + i, 1); }
        if (i != 2) aw_put_t35(&b, 0xb5, 0, t35, 6);
        if (i & 1) aw_put_t35(&b, 0xff, 3, t35, 6);
        if (i == 4 && !v) aw_put_show_existing(e, 1, &b);
        else {
            aw_frm_default(e, &f, i == 0 || (v && i == 3) ? 0 : 1); f.order_hint = i;
            if (f.type) { for (int j = 0; j < 7; j++) f.refidx[j] = 0; f.refresh = 1; }
            if (i == 2) { f.show = 0; f.refresh = 2; }
            if (i == 1 || i == 5 || i == 2) st_grain(&f, 50 + i);
            if (i == 3 && !v) f.primary = 0;
            put_frame(e, &f, &b, en_seed * 31 + i + v * 9, 900, i & 1 ? AW_SPLIT : 0);
        }
        pk_add(k, &b);
    }
    free(e); awb_free(&b);
}
static struct { int s, t, d, grain, cust, pat, sync; } cf;
enum { P_PLAIN, P_FLUSH, P_RETRY, P_HOLD, P_NB };
static const char *const pname[] = { "", " flush after errors", " resend refused data", " holding pictures, applying grain" };
static Trace ref, tr; static int nerr, first_err; /* pictures delivered when the first error was returned */
static void err(void) { if (!nerr++) first_err = tr.n; }
static Dav1dPicture held[64]; static uint64_t held_h[64]; static int nheld;
/* wrapping the user data may have failed */
static uint64_t ph(const Dav1dPicture *p) { Dav1dPicture q = *p; q.m.user_data.data = NULL; return pic_hash(&q); }
static void got(Dav1dPicture *p) {
    tr_add(&tr, 0, 0, ph(p), p->m.timestamp);
    if (cf.pat == P_HOLD && nheld < 60) {
        held[nheld] = *p; held_h[nheld++] = ph(p);
    } else { L(dav1d_picture_unref(p)); }
}
static int get(Dav1dContext *c) {
    Dav1dPicture p; memset(&p, 0, sizeof(p)); int r; L(r = dav1d_get_picture(c, &p));
    if (!r) {
        if (cf.pat == P_HOLD) {
            Dav1dPicture o; memset(&o, 0, sizeof(o)); const uint64_t h = ph(&p); int g; L(g = dav1d_apply_grain(c, &o, &p));
            if (g) { err(); if (o.data[0] || o.ref) en_viol_("refused dav1d_apply_grain left a picture"); }
            else { tr_add(&tr, 0, 1, ph(&o), o.m.timestamp); L(dav1d_picture_unref(&o)); }
            if (ph(&p) != h) en_viol_("apply_grain changed its input");
        }
        got(&p);
    } else if (r != DAV1D_ERR(EAGAIN)) { err(); if (p.data[0] || p.ref) en_viol_("dav1d_get_picture failed (%d) but left a picture", r); }
    return r;
}
static void drain(Dav1dContext *c) { for (int i = 0, e = 0; i < 200 && e < 2; i++) e = get(c) == DAV1D_ERR(EAGAIN) ? e + 1 : 0; }
static int freed[64], nfreed; static void pfree(const uint8_t *d, void *c) { ++*(int *)c; }
static void send(Dav1dContext *c, const Pkt *k) {
    Dav1dData d; memset(&d, 0, sizeof(d)); int r; int *fr = &freed[nfreed++];
    if (k->ts & 1) { L(r = dav1d_data_wrap(&d, k->p, k->n, pfree, fr)); if (r) { err(); *fr = 1; return; } }
    else { uint8_t *p; *fr = 1; L(p = dav1d_data_create(&d, k->n)); if (!p) { err(); return; } memcpy(p, k->p, k->n); }
    d.m.timestamp = k->ts;
    static const uint8_t ud[4] = { 1 };
    if (k->ts % 3 == 0) { int *f2 = &freed[nfreed++]; L(r = dav1d_data_wrap_user_data(&d, ud, pfree, f2)); if (r) { *f2 = 1; err(); } }
    int it = 0, tries = 0;
    for (; d.sz > 0 && it < 100; it++) {
        L(r = dav1d_send_data(c, &d));
        if (r < 0 && r != DAV1D_ERR(EAGAIN)) { err(); if (!d.sz && cf.pat == P_RETRY) break; if (cf.pat != P_RETRY || ++tries > 1) { L(dav1d_data_unref(&d)); } if (cf.pat == P_FLUSH) { L(dav1d_flush(c)); } }
        else if (!r && d.sz) en_viol_("dav1d_send_data returned 0 with data left");
        if (get(c) < -11 && cf.pat == P_FLUSH && 0) ;
    }
    if (it == 100) en_viol_("packet never accepted");
    if (d.sz || d.ref) { L(dav1d_data_unref(&d)); }
}
/* returns number of allocations made with faults enabled */
static long run(long first, long last, int faulty) {
    memset(&tr, 0, sizeof(tr)); nerr = 0; nheld = 0; nfreed = 0; memset(freed, 0, sizeof(freed));
    atomic_store(&nalloc, 0); atomic_store(&live, 0); atomic_store(&fired, 0); f_first = first; f_last = last; f_sync = cf.sync;
    atomic_store(&pa.live, 0); atomic_store(&pa.bad, 0);
    Dav1dSettings s; L(dav1d_default_settings(&s)); dec_settings(&s, cf.t, cf.d); s.apply_grain = cf.grain;
    s.allocator.cookie = &pa; if (cf.cust) { s.allocator.alloc_picture_callback = cb_alloc; s.allocator.release_picture_callback = cb_release; } else s.allocator.cookie = NULL;
    Dav1dContext *c = NULL; int r;
    Dav1dSequenceHeader sh; L(r = dav1d_parse_sequence_header(&sh, pk[cf.s].v[0].p, pk[cf.s].v[0].n)); if (r) err();
    L(r = dav1d_open(&c, &s));
    long n = 0;
    if (r) {
        err();
        if (!faulty || !atomic_load(&fired)) en_viol_("dav1d_open failed without a fault");
        if (c) en_viol_("failed dav1d_open left a context");
        if (atomic_load(&live)) en_viol_("failed dav1d_open leaked %ld blocks", atomic_load(&live));
        n = atomic_load(&nalloc); f_first = f_last = 0; atomic_store(&live, 0);
        L(r = dav1d_open(&c, &s)); if (r) { en_viol_("dav1d_open fails with memory available again"); return n; }
        memset(&tr, 0, sizeof(tr)); first_err = 1000;
        for (int i = 0; i < pk[cf.s].n; i++) send(c, &pk[cf.s].v[i]);
        drain(c);
    } else {
        for (int i = 0; i < pk[cf.s].n; i++) send(c, &pk[cf.s].v[i]);
        drain(c);
        n = atomic_load(&nalloc); f_first = f_last = 0;
    }
    const int fx = atomic_load(&fired), ne = nerr;
    /* no picture that the stream does not contain */
    int npic = 0;
    if (faulty) {
        /* what was delivered before the first error is right */
        const int good = ne ? first_err : tr.n;
        for (int i = 0; i < tr.n; i++) { npic += !tr.e[i].kind; if (i < (good == 1000 ? tr.n : good) && (i >= ref.n || memcmp(&ref.e[i], &tr.e[i], sizeof(Ev)))) { en_viol_("picture %d (timestamp %lld) differs from the one delivered without faults (%d faults, %d errors)", i, (long long)tr.e[i].ts, fx, ne); break; } }
        if (fx && !ne && !tr_eq(&tr, &ref)) en_viol_("%d of %d pictures delivered and no error returned (%d faults)", tr.n, ref.n, fx);
        if (!fx && !tr_eq(&tr, &ref)) en_viol_("output differs without any fault");
    } else ref = tr;
    if (npic) en_nontrivial++;
    en_seen(hu(hu(h64(H0, tr.e, sizeof(Ev) * tr.n), ne), cf.s));
    /* memory is available again: a new key frame decodes correctly */
    if (faulty) {
        for (int i = 0; i < nheld; i++) if (ph(&held[i]) != held_h[i]) en_viol_("held picture changed");
        if (cf.pat == P_FLUSH) { L(dav1d_flush(c)); }
        const int n0 = tr.n; const int e0 = nerr;
        for (int i = 0; i < rec.n; i++) send(c, &rec.v[i]);
        drain(c);
        static int wh[2]; static Trace w2[2]; const int hi = cf.pat == P_HOLD;
        Trace a; memset(&a, 0, sizeof(a)); for (int i = n0; i < tr.n; i++) if (tr.e[i].ts >= 5000) a.e[a.n++] = tr.e[i];
        if (!wh[hi]) {
            Trace sv = tr; Dav1dContext *c2 = NULL; const int pt = cf.pat; L(dav1d_open(&c2, &s)); memset(&tr, 0, sizeof(tr)); const int nh = nheld;
            for (int i = 0; i < rec.n; i++) send(c2, &rec.v[i]);
            drain(c2); while (nheld > nh) { nheld--; L(dav1d_picture_unref(&held[nheld])); }
            L(dav1d_close(&c2)); w2[hi] = tr; tr = sv; wh[hi] = 1; cf.pat = pt;
        }
        if (!tr_eq(&a, &w2[hi]) && en_only) { tr_print(stderr, "want ", &w2[hi]); tr_print(stderr, "got ", &a); tr_print(stderr, "all ", &tr); }
        if (!tr_eq(&a, &w2[hi])) en_viol_("after the memory shortage a new key frame decodes to %d of %d pictures (%d errors then)", a.n, w2[hi].n, nerr - e0);
    }
    if (cf.pat == P_HOLD && first & 1) { L(dav1d_close(&c)); }
    for (int i = 0; i < nheld; i++) { if (ph(&held[i]) != held_h[i]) en_viol_("held picture changed"); L(dav1d_picture_unref(&held[i])); }
    if (c) { L(dav1d_close(&c)); }
    if (c) en_viol_("context not cleared by close");
    if (atomic_load(&live)) en_viol_("%ld blocks leaked (%d faults)", atomic_load(&live), fx);
    if (atomic_load(&pa.live)) en_viol_("%d pictures leaked", atomic_load(&pa.live));
    if (atomic_load(&pa.bad)) en_viol_("picture released twice or with other pointers, or memory around it overwritten");
    for (int i = 0; i < nfreed; i++) if (freed[i] != 1) { en_viol_("input or user data buffer %d released %d times", i, freed[i]); break; }
    return n;
}
int main(int argc, char **argv) {
    app = 1; en_init(argc, argv); en_hang_s = 60;
    meta_stream(0); meta_stream(1);
    static const int sw[] = { ST_TILES, ST_HBD, ST_WIDE, ST_SB128, ST_SUPERRES, ST_GRAIN10 };
    for (int i = 0; i < 6; i++) switch_stream(sw[i]);
    static const int ids[] = { ST_SEG, ST_SVC, ST_SCALED, ST_TILES, ST_SHOWEX, ST_REF, ST_GRAIN10, ST_SUPERRES, ST_LR, ST_INTRABC, ST_SEGNC, ST_WIDE };
    for (int i = 0; i < 12; i++) add(ids[i], 3);
    { Pkts m; st_build(ST_SEG, 1, en_seed + 77, &m); for (int i = 0; i < m.n; i++) { AwBuf b = { m.v[i].p, m.v[i].n, 0 }; pk_add(&rec, &b); rec.v[i].ts = 5000 + i; } pk_free(&m); }
    pa_init(&pa, 0, 0, -1);
    static const int TD[][2] = { { 1, 1 }, { 2, 1 }, { 2, 2 }, { 3, 3 }, { 4, 2 } };
    for (cf.s = 0; cf.s < ns; cf.s++) for (int td = 0; td < 5; td++) for (cf.pat = 0; cf.pat < P_NB; cf.pat++) for (cf.cust = 0; cf.cust < 2; cf.cust++) {
        if (en_quick && cf.s > 1 && (cf.s + td + cf.pat * 2 + cf.cust) % 6) continue;
        cf.t = TD[td][0]; cf.d = TD[td][1]; cf.grain = cf.pat != P_HOLD && !((cf.s + cf.pat) & 1); cf.sync = cf.cust;
        long K = -1;
        for (int mode = 0; mode < 3; mode++) {
            /* mode 0: only allocation k; 1: from k on; 2: k to k+3 */
            if (!en_begin("%s t%d,%d%s%s%s %s faults", sname[cf.s], cf.t, cf.d, cf.grain ? " grain" : "", cf.cust ? " custom allocator and thread faults" : "", pname[cf.pat],
                          mode == 0 ? "single" : mode == 1 ? "permanent" : "four")) continue;
            if (en_over()) goto out;
            char base[512]; snprintf(base, sizeof(base), "%s", en_case);
            snprintf(en_case, sizeof(en_case), "%s: no fault", base);
            K = run(0, 0, 0); if (nerr) en_viol_("errors without faults");
            for (long k = 1; k <= K + 2; k++) {
                snprintf(en_case, sizeof(en_case), "%s: k=%ld", base, k); alarm(en_hang_s);
                run(k, mode == 0 ? k : mode == 1 ? 1l << 60 : k + 3, 1); en_evals++;
            }
            if (!mode) en_sample("%s: %ld allocations", base, K);
        }
    }
out:
    return en_finish();
}

/* S05: ownership.  Every sequence of API operations up to a depth on a real decoder
 * with counted input buffers, user data and picture buffers; delivered pictures are
 * compared after every operation with what they were when delivered. */
#include <malloc.h>
#include <pthread.h>
#include "streams.h"
#include "enumh.h"
#include "palloc.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SAN 1
#endif
#endif
#ifndef SAN
#define SAN 0
#endif
enum { S, G, R, N, D, F, C, A, U, X, P, W, NOP_ };
static const char on[] = "SGRNDFCAUXPW";
static const char *const odoc[] = { "send", "get", "release oldest", "release newest", "send damaged", "flush", "apply grain to the oldest", "apply grain to the newest", "discard refused data", "close and reopen", "error properties", "send empty" };

/* ---- counted buffers */
typedef struct { uint8_t *mem; size_t n; atomic_int freed; int user; } Buf;
enum { MAXB = 256 };
static Buf bufs[MAXB]; static atomic_int nbufs;
typedef struct { Dav1dPicture p; uint64_t h; const void *ud; } Held;
static Held held[12]; static int nheld;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static atomic_int early;
static void buf_free(const uint8_t *d, void *ck) {
    Buf *b = ck; (void)d;
    if (atomic_fetch_add(&b->freed, 1)) { atomic_store(&early, 1); return; }
    if (b->user) { /* still named by a picture the application holds? */
        pthread_mutex_lock(&mu);
        for (int i = 0; i < nheld; i++) if (held[i].ud == b->mem) atomic_store(&early, 2);
        pthread_mutex_unlock(&mu);
    }
    memset(b->mem, 0xDD, b->n); free(b->mem);
}
static Buf *buf_new(const uint8_t *p, size_t n, int user) {
    const int i = atomic_fetch_add(&nbufs, 1); if (i >= MAXB) exit(2);
    Buf *b = &bufs[i]; b->mem = malloc(n ? n : 1); if (p) memcpy(b->mem, p, n); else memset(b->mem, 0x42, n); b->n = n; atomic_store(&b->freed, 0); b->user = user; return b;
}
/* ---- picture buffers */
static PA pa;
static void pic_release(Dav1dPicture *p, void *c) {
    pthread_mutex_lock(&mu);
    for (int i = 0; i < nheld; i++) if (held[i].p.allocator_data == p->allocator_data) atomic_store(&early, 3);
    pthread_mutex_unlock(&mu);
    /* the contents are gone as far as the application is concerned */
    PAb *b = p->allocator_data; if (b->magic == 0x70616c6c6f63ull) for (int i = 0; i < 3; i++) if (b->base[i]) memset(b->base[i] + PA_GUARD, 0xEE, b->sz[i]);
    pa_release(p, c);
}
static uint64_t full_hash(const Dav1dPicture *p) {
    uint64_t h = pic_hash(p);
    h = h64(h, p->frame_hdr, sizeof(*p->frame_hdr)); h = h64(h, p->seq_hdr, sizeof(*p->seq_hdr));
    if (p->content_light) h = h64(h, p->content_light, sizeof(*p->content_light));
    if (p->mastering_display) h = h64(h, p->mastering_display, sizeof(*p->mastering_display));
    for (size_t i = 0; i < p->n_itut_t35; i++) h = h64(h, p->itut_t35[i].payload, p->itut_t35[i].payload_size);
    if (p->m.user_data.data) h = h64(h, p->m.user_data.data, 24);
    return h;
}
static void hold(Dav1dPicture *p) {
    Held *q = &held[nheld];
    q->p = *p; q->ud = p->m.user_data.data; q->h = full_hash(p);
    pthread_mutex_lock(&mu); nheld++; pthread_mutex_unlock(&mu);
}
static void unhold(int i) {
    Held q = held[i];
    pthread_mutex_lock(&mu); memmove(held + i, held + i + 1, (nheld - i - 1) * sizeof(*held)); nheld--; pthread_mutex_unlock(&mu);
    dav1d_picture_unref(&q.p);
}
static void chk_held(const char *when) {
    for (int i = 0; i < nheld; i++) if (full_hash(&held[i].p) != held[i].h) { en_viol_("a delivered picture changed (%s)", when); held[i].h = full_hash(&held[i].p); }
    switch (atomic_exchange(&early, 0)) {
    case 1: en_viol_("a buffer was released twice (%s)", when); break;
    case 2: en_viol_("user data released while a delivered picture carries it (%s)", when); break;
    case 3: en_viol_("picture buffer released while the application holds the picture (%s)", when); break;
    }
}
/* ---- streams with metadata, hidden and shown-again frames, grain, layers, sequence changes */
static Pkts pk[4];
static void mk_streams(void) {
    static const uint16_t prim[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 6 } }, wp[2] = { 7, 8 };
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    for (int v = 0; v < 2; v++) {
        memset(e, 0, sizeof(*e)); aw_seq_default(&e->seq, 16, 16); e->seq.fg = 1;
        for (int i = 0; i < 6; i++) {
            b.n = 0; aw_put_td(&b); const uint8_t t35[6] = { 9, 8, 7, i, 1, 0x80 };
            if (i == 0 || (v && i == 3)) { if (i) { e->seq.w = 24; for (int j = 0; j < 8; j++) e->ref[j].valid = 0; } aw_put_seq(e, &b); aw_put_cll(&b, 100 + i, 50); aw_put_mdcv(&b, prim, wp, 100 + i, 1); }
            aw_put_t35(&b, 0xb5, 0, t35, 6); if (i & 1) aw_put_t35(&b, 0xff, 3, t35, 6);
            if (i == 4 && !v) aw_put_show_existing(e, 1, &b);
            else {
                aw_frm_default(e, &f, i == 0 || (v && i == 3) ? 0 : 1); f.order_hint = i;
                if (f.type) for (int j = 0; j < 7; j++) f.refidx[j] = 0;
                if (f.type) f.refresh = 1;
                if (i == 2) { f.show = 0; f.refresh = 2; }
                if (i == 1 || i == 5 || i == 2) st_grain(&f, 50 + i);
                if (i == 3 && !v) f.primary = 0;
                put_frame(e, &f, &b, en_seed * 31 + i + v * 9, 900, i & 1 ? AW_SPLIT : 0);
            }
            pk_add(&pk[v], &b);
        }
    }
    free(e); awb_free(&b);
    st_build(ST_SVC, 2, en_seed + 3, &pk[2]);
    st_build(ST_TILES, 2, en_seed + 5, &pk[3]);
}
/* ---- running one sequence; returns the index of the first operation without effect, or n */
static struct { int strm, t, d, grain, start, layers; } cf;
static Dav1dContext *open_(void) {
    Dav1dSettings s; dec_settings(&s, cf.t, cf.d); pa_use(&s, &pa); s.allocator.release_picture_callback = pic_release; s.apply_grain = cf.grain; s.all_layers = cf.layers;
    Dav1dContext *c = NULL; if (dav1d_open(&c, &s)) exit(2); return c;
}
static int run(const int *op, int n, int fin) {
    Dav1dContext *c = open_(); Pkts *k = &pk[cf.strm]; int next = 0, stop = n, grained = 0; Dav1dData d; memset(&d, 0, sizeof(d));
    const int off = cf.start;
    for (int i = -off; i < n; i++) {
        const int o = i < 0 ? ((i + off) & 1 ? G : S) : op[i];
        int eff = 1;
        switch (o) {
        case S: case D: case W:
            if (d.data || d.m.user_data.ref) { if (o != S) { eff = 0; break; } }
            else {
                const Pkt *q = &k->v[next++ % k->n]; memset(&d, 0, sizeof(d));
                if (o != W) {
                    size_t len = o == D && q->n > 40 ? q->n - 30 : q->n; /* the frame's last tile bytes are missing */
                    Buf *b = buf_new(q->p, len, 0); if (o == D && len > 6) b->mem[len / 3] ^= 0x10;
                    if (dav1d_data_wrap(&d, b->mem, len, buf_free, b)) exit(2);
                    d.m.timestamp = q->ts;
                }
                Buf *u = buf_new(NULL, 24, 1); u->mem[0] = (uint8_t)next; if (dav1d_data_wrap_user_data(&d, u->mem, buf_free, u)) exit(2);
            }
            { Dav1dData bf = d; int r = dav1d_send_data(c, &d);
              if (!r) { if (d.data || d.ref || d.m.user_data.ref || d.sz) en_viol_("accepted data left with the caller"); }
              else { if (d.data != bf.data || d.sz != bf.sz || d.ref != bf.ref || d.m.user_data.ref != bf.m.user_data.ref) en_viol_("refused data changed"); if (r != DAV1D_ERR(EAGAIN)) dav1d_data_unref(&d); } }
            break;
        case G: { if (nheld >= 10) { eff = 0; break; } Dav1dPicture p; memset(&p, 0, sizeof(p)); if (!dav1d_get_picture(c, &p)) { if (p.p.bpc == 8) grained = 1; hold(&p); } break; }
        case R: if (!nheld) eff = 0; else unhold(0); break;
        case N: if (nheld < 2) eff = 0; else unhold(nheld - 1); break;
        case F: dav1d_flush(c); next = 0; break;
        case C: if (nheld < 2 || nheld >= 10 || !grained) eff = 0; else { Dav1dPicture p; memset(&p, 0, sizeof(p)); if (!dav1d_apply_grain(c, &p, &held[0].p)) hold(&p); } break;
        case A: if (!nheld || nheld >= 10 || !grained) eff = 0; else { Dav1dPicture p; memset(&p, 0, sizeof(p)); if (!dav1d_apply_grain(c, &p, &held[nheld - 1].p)) hold(&p); } break;
        case U: if (!d.data) eff = 0; else dav1d_data_unref(&d); break;
        case X: dav1d_close(&c); chk_held("after close"); c = open_(); next = 0; grained = 0; break;
        case P: { Dav1dDataProps m; memset(&m, 0, sizeof(m)); if (dav1d_get_decode_error_data_props(c, &m)) en_viol_("error properties refused"); if (m.user_data.data && atomic_load(&((Buf *)&bufs[0])->freed) < 0) abort(); if (m.user_data.ref) { volatile uint8_t x = m.user_data.data[0]; (void)x; } else eff = 0; dav1d_data_props_unref(&m); break; }
        }
        if (!eff && i >= 0) { stop = i; break; }
        chk_held(i < 0 ? "prefix" : odoc[o]);
    }
    if (stop == n) {
        en_evals++; if (nheld) en_nontrivial++;
        uint64_t h = nheld; for (int i = 0; i < nheld; i++) h = hu(h, held[i].h ^ (uint64_t)(uintptr_t)0); (void)h;
    }
    if (d.data || d.m.user_data.ref) dav1d_data_unref(&d);
    if (fin & 1) { while (nheld) { unhold(fin & 2 ? nheld - 1 : 0); } dav1d_close(&c); }
    else { if (fin & 2) dav1d_flush(c); dav1d_close(&c); chk_held("after the final close"); while (nheld) { unhold(0); chk_held("releasing"); } }
    chk_held("at the end");
    const int nb = atomic_load(&nbufs);
    for (int i = 0; i < nb; i++) { const int fr = atomic_load(&bufs[i].freed); if (fr != 1) en_viol_("%s buffer %d released %d times", bufs[i].user ? "user data" : "input", i, fr); if (!fr) free(bufs[i].mem); }
    atomic_store(&nbufs, 0);
    if (atomic_load(&pa.live)) { en_viol_("%d pictures never released", atomic_load(&pa.live)); atomic_store(&pa.live, 0); }
    if (atomic_load(&pa.bad)) { en_viol_("picture released twice or with other pointers, or memory around it overwritten"); atomic_store(&pa.bad, 0); }
    return stop;
}
int main(int argc, char **argv) {
    en_init(argc, argv); en_hang_s = 120; mk_streams(); pa_init(&pa, 0, 0, -1);
    if (!SAN) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20); }
    static const int TD[][2] = { { 1, 1 }, { 2, 2 }, { 3, 1 }, { 3, 3 } };
    const int depth = (en_quick ? 5 : 7) - SAN;
    for (int len = 3; len <= depth; len++)
    for (cf.strm = 0; cf.strm < 4; cf.strm++) for (int td = 0; td < 4; td++) for (cf.start = 0; cf.start <= 6; cf.start += 2) for (int o0 = 0; o0 < NOP_; o0++) {
        if (len == depth && en_quick && (cf.strm * 5 + td * 3 + cf.start / 2) % 16) continue; /* quick: the deepest level for some configurations only */
        cf.t = TD[td][0]; cf.d = TD[td][1]; cf.grain = (cf.strm + td + cf.start / 2 + len) & 1; cf.layers = cf.start >> 1 & 1;
        if (!en_begin("%s%d t%d,%d after %d: %c then every %d operations", cf.grain ? "g" : "s", cf.strm, cf.t, cf.d, cf.start, on[o0], len - 1)) continue;
        if (en_over()) goto out;
        int op[8] = { o0 }; char base[256]; snprintf(base, sizeof(base), "%s", en_case);
        for (;;) {
            char w[16]; for (int i = 0; i < len; i++) w[i] = on[op[i]]; w[len] = 0;
            snprintf(en_case, sizeof(en_case), "%s | %s", base, w); for (char *q = strchr(en_case, '|'); q; q = NULL) *q = ':';
            alarm(en_hang_s);
            int s = run(op, len, (op[len - 1] + op[len - 2] + op[1]) & 3);
            if (s >= len) s = len - 1;
            while (s > 0 && ++op[s] == NOP_) { op[s] = 0; s--; }
            if (s == 0) break;
            for (int i = s + 1; i < len; i++) op[i] = 0;
        }
        if (!o0 && !cf.start) en_sample("%s", base);
    }
out:
    return en_finish();
}

/* S19: settings and arguments outside their documented range are refused without
 * side effects (PART 1; release build without assertions), and the frame size limit
 * is respected (PART 2). */
#include <dirent.h>
#include <malloc.h>
#include "streams.h"
#include "enumh.h"
#include "palloc.h"

static int n_tasks(void) { int n = 0; DIR *d = opendir("/proc/self/task"); struct dirent *e; while ((e = readdir(d))) n += e->d_name[0] != '.'; closedir(d); return n; }
static PA pa;
#if PART == 1
enum { F_THREADS, F_DELAY, F_OP, F_DFT, F_ALLOC, F_LAYERS, F_LIMIT, F_GRAIN, F_STRICT, F_INVIS, F_FILT, F_LOG, NF };
static const char *const fnm[] = { "threads", "delay", "operating_point", "decode_frame_type", "allocator", "all_layers", "frame_size_limit", "apply_grain", "strict", "invisible", "inloop_filters", "logger" };
static const int vals[NF][16] = {
    { 1, 0, 2, 3, 255, 256, -1, 257, 258, 1000, -2147483647 - 1, 2147483647, 65537, -256, 4, 8 },
    { 1, 0, 2, 3, 255, 256, -1, 257, 258, 1000, -2147483647 - 1, 2147483647, 65537, -256, 4, 8 },
    { 0, 1, 2, 7, 8, 15, 16, 30, 31, 32, -1, 33, 255, 256, -2147483647 - 1, 2147483647 },
    { 0, 1, 2, 3, 4, -1, 5, 8, 255, 256, 2147483647, -2147483647 - 1, 1 << 16, -256, 7, 3 },
    { 0, 1, 2, 3, 4, 5, 6, 7, 0, 0, 0, 0, 0, 0, 0, 0 }, /* see below */
    { 0, 1, 2, -1, 2147483647 }, { 0, 1, 100, -1, 2147483647, 1 << 26 }, { 0, 1, -1, 5 }, { 0, 1, -1, 5 }, { 0, 1, -1, 5 }, { 7, 0, 1, 2, 3, 4, 5, 6 }, { 0, 1 },
};
static const int nval[NF] = { 16, 16, 16, 16, 8, 5, 6, 4, 4, 4, 8, 2 };
static int dp_alloc(Dav1dPicture *p, void *c) { return pa_alloc(p, c); }
static Dav1dPicAllocator def;
static void set(Dav1dSettings *s, int f, int v) {
    switch (f) {
    case F_THREADS: s->n_threads = v; break; case F_DELAY: s->max_frame_delay = v; break; case F_OP: s->operating_point = v; break;
    case F_DFT: s->decode_frame_type = (enum Dav1dDecodeFrameType)v; break; case F_LAYERS: s->all_layers = v; break;
    case F_LIMIT: s->frame_size_limit = (unsigned)v; break; case F_GRAIN: s->apply_grain = v; break; case F_STRICT: s->strict_std_compliance = v; break;
    case F_INVIS: s->output_invisible_frames = v; break; case F_FILT: s->inloop_filters = (enum Dav1dInloopFilterType)v; break;
    case F_LOG: s->logger.callback = v ? NULL : dec_quiet_log; break;
    case F_ALLOC:
        s->allocator = def;
        switch (v) {
        case 1: s->allocator.cookie = &pa; s->allocator.alloc_picture_callback = dp_alloc; s->allocator.release_picture_callback = pa_release; break;
        case 2: s->allocator.alloc_picture_callback = NULL; break;
        case 3: s->allocator.release_picture_callback = NULL; break;
        case 4: s->allocator.alloc_picture_callback = NULL; s->allocator.release_picture_callback = NULL; break;
        case 5: s->allocator.alloc_picture_callback = dp_alloc; break;        /* one default, one custom */
        case 6: s->allocator.release_picture_callback = pa_release; break;
        case 7: s->allocator.cookie = &pa; break;                             /* the default allocator takes no cookie */
        }
        break;
    }
}
static int valid(int f, int v) {
    switch (f) {
    case F_THREADS: case F_DELAY: return v >= 0 && v <= 256;
    case F_OP: return v >= 0 && v <= 31;
    case F_DFT: return v >= 0 && v <= 3;
    case F_ALLOC: return v <= 1;
    }
    return 1;
}
static long in_use(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static Pkts kk;
static int ncpu;
static void try(const Dav1dSettings *s, int ok, int delay_ok) {
    const int t0 = n_tasks(); const int a0 = atomic_load(&pa.allocs);
    Dav1dSettings cp = *s;
    const int fd = dav1d_get_frame_delay(&cp);
    if (delay_ok ? fd < 1 || fd > 256 || (s->max_frame_delay && fd > s->max_frame_delay) : fd >= 0) en_viol_("frame delay reported as %d for %d threads, delay %d", fd, s->n_threads, s->max_frame_delay);
    const long m0 = in_use();
    Dav1dContext *c = NULL; const int r = dav1d_open(&c, &cp);
    en_evals++;
    if (memcmp(&cp, s, sizeof(cp))) en_viol_("opening changed the settings");
    if (ok) {
        if (r || !c) { en_viol_("settings within range refused with %d", r); return; }
        const int want = s->n_threads == 1 ? 0 : s->n_threads ? s->n_threads : ncpu;
        if (n_tasks() - t0 != want) en_viol_("decoder runs %d threads with n_threads %d", n_tasks() - t0, s->n_threads);
        if (s->n_threads <= 4) { static Trace t; memset(&t, 0, sizeof(t)); dec_packet(c, kk.v[0].p, kk.v[0].n, 1, &t); dec_drain(c, &t);
            if (s->decode_frame_type <= 3 && s->frame_size_limit != 1 && s->frame_size_limit != 100 && !s->strict_std_compliance && (t.n != 1 || t.e[0].kind)) en_viol_("decoder opened with accepted settings does not decode a key frame (%d results)", t.n); }
        dav1d_close(&c); if (c) en_viol_("close left the pointer set");
    } else {
        if (r >= 0) en_viol_("settings outside their range accepted (%d)", r);
        if (c) en_viol_("a failed open left a decoder behind");
        const long m1 = in_use(); if (m1 != m0) en_viol_("a failed open leaked %ld bytes", m1 - m0);
        en_nontrivial++;
    }
    int n = 0; while (n_tasks() != t0 && n++ < 200) usleep(1000);
    if (n_tasks() != t0) en_viol_("threads left running");
    if (!ok && atomic_load(&pa.allocs) != a0) en_viol_("pictures allocated by a failed open");
    if (atomic_load(&pa.live)) en_viol_("pictures left allocated");
}
static void nothing(const uint8_t *d, void *c) { (void)d; (void)c; }
static void args(void) {
    if (!en_begin("null and malformed arguments")) return;
    Dav1dSettings s; dec_settings(&s, 1, 1); Dav1dContext *c = NULL; Dav1dPicture p, q; Dav1dData d; Dav1dSequenceHeader sh; Dav1dDataProps m; enum Dav1dEventFlags fl;
#define EI(x) do { en_evals++; const int r_ = (x); if (r_ != DAV1D_ERR(EINVAL)) en_viol_("%s returned %d", #x, r_); } while (0)
    EI(dav1d_open(NULL, &s)); EI(dav1d_open(&c, NULL)); if (c) en_viol_("decoder left behind"); EI(dav1d_get_frame_delay(NULL));
    if (dav1d_open(&c, &s)) { en_viol_("cannot open"); return; }
    memset(&p, 0, sizeof(p)); memset(&q, 0, sizeof(q)); memset(&d, 0, sizeof(d)); memset(&m, 0, sizeof(m));
    EI(dav1d_send_data(NULL, &d)); EI(dav1d_send_data(c, NULL)); EI(dav1d_get_picture(NULL, &p)); EI(dav1d_get_picture(c, NULL));
    EI(dav1d_apply_grain(NULL, &p, &q)); EI(dav1d_apply_grain(c, NULL, &q)); EI(dav1d_apply_grain(c, &p, NULL));
    EI(dav1d_get_event_flags(NULL, &fl)); EI(dav1d_get_event_flags(c, NULL)); EI(dav1d_get_decode_error_data_props(NULL, &m)); EI(dav1d_get_decode_error_data_props(c, NULL));
    EI(dav1d_parse_sequence_header(NULL, kk.v[0].p, kk.v[0].n)); EI(dav1d_parse_sequence_header(&sh, NULL, 5)); EI(dav1d_parse_sequence_header(&sh, kk.v[0].p, 0)); EI(dav1d_parse_sequence_header(&sh, kk.v[0].p, SIZE_MAX)); EI(dav1d_parse_sequence_header(&sh, kk.v[0].p, SIZE_MAX / 2 + 1));
    uint8_t b[4] = { 0x12, 0, 0, 0 };
    EI(dav1d_data_wrap(NULL, b, 2, nothing, NULL)); EI(dav1d_data_wrap(&d, NULL, 2, nothing, NULL)); EI(dav1d_data_wrap(&d, b, 2, NULL, NULL)); EI(dav1d_data_wrap(&d, b, SIZE_MAX / 2 + 1, nothing, NULL));
    EI(dav1d_data_wrap_user_data(NULL, b, nothing, NULL)); EI(dav1d_data_wrap_user_data(&d, b, NULL, NULL));
    if (d.data || d.ref || d.m.user_data.ref) en_viol_("refused wrapping changed the data");
    if (dav1d_data_create(NULL, 5) || dav1d_data_create(&d, SIZE_MAX / 2 + 1) || dav1d_data_create(&d, SIZE_MAX)) en_viol_("impossible data buffer created");
    d.data = b; d.sz = 0; EI(dav1d_send_data(c, &d)); d.sz = SIZE_MAX / 2 + 1; EI(dav1d_send_data(c, &d)); d.sz = SIZE_MAX; EI(dav1d_send_data(c, &d));
    memset(&d, 0, sizeof(d));
    if (dav1d_send_data(c, &d)) en_viol_("empty data refused");
    dav1d_data_unref(NULL); dav1d_picture_unref(NULL); dav1d_data_props_unref(NULL); dav1d_data_unref(&d); dav1d_picture_unref(&p); dav1d_flush(c);
    static Trace t; memset(&t, 0, sizeof(t)); dec_packet(c, kk.v[0].p, kk.v[0].n, 1, &t); dec_drain(c, &t); if (t.n != 1 || t.e[0].kind) en_viol_("decoder unusable after refused calls");
    dav1d_close(NULL); dav1d_close(&c); dav1d_close(&c); if (c) en_viol_("close left the pointer set");
    en_nontrivial++;
}
int main(int argc, char **argv) {
    en_init(argc, argv);
    Dav1dSettings ds; dav1d_default_settings(&ds); def = ds.allocator; pa_init(&pa, 0, 0, -1);
    st_build(ST_ONEROW, 0, en_seed, &kk);
    { Dav1dContext *c; int t0 = n_tasks(); Dav1dSettings s; dec_settings(&s, 0, 1); if (!dav1d_open(&c, &s)) { ncpu = n_tasks() - t0; dav1d_close(&c); } long onl = sysconf(_SC_NPROCESSORS_ONLN); if (ncpu > onl || (onl > 1 && ncpu < 1)) { snprintf(en_case, sizeof(en_case), "default-threads"); en_viol_("n_threads 0 started %d threads on %ld processors", ncpu, onl); } }
    { Dav1dContext *c = NULL; for (int i = 0; i < 3; i++) { Dav1dSettings s; dec_settings(&s, 3, 2); if (!dav1d_open(&c, &s)) dav1d_close(&c); s.allocator.cookie = &pa; dav1d_open(&c, &s); } } /* warm up */
    if (en_begin("defaults")) { Dav1dSettings s; memset(&s, 0x55, sizeof(s)); dav1d_default_settings(&s); s.logger.callback = dec_quiet_log; Dav1dContext *c = NULL;
        if (s.n_threads || s.max_frame_delay || s.apply_grain != 1 || s.operating_point || s.all_layers != 1 || s.frame_size_limit || s.strict_std_compliance || s.output_invisible_frames || s.inloop_filters != DAV1D_INLOOPFILTER_ALL || s.decode_frame_type) en_viol_("defaults differ from the documentation");
        if (dav1d_open(&c, &s)) en_viol_("default settings refused"); else dav1d_close(&c); en_evals++; }
    args();
    for (int f = 0; f < NF; f++) for (int v = 0; v < nval[f]; v++) for (int g = f + 1; g < NF; g++) {
        if (!en_begin("%s=%d with each %s", fnm[f], vals[f][v], fnm[g])) continue;
        if (en_over()) goto out;
        for (int u = 0; u < nval[g]; u++) {
            if ((f == F_THREADS && vals[f][v] >= 8 && vals[f][v] <= 256) && (u % 4) && en_quick && g != F_DELAY) continue; /* starting many threads is slow */
            Dav1dSettings s; dec_settings(&s, 1, 1); set(&s, f, vals[f][v]); set(&s, g, vals[g][u]);
            try(&s, valid(f, vals[f][v]) && valid(g, vals[g][u]), valid(F_THREADS, s.n_threads) && valid(F_DELAY, s.max_frame_delay));
        }
        if (!v) en_sample("%s=%d with each %s", fnm[f], vals[f][v], fnm[g]);
    }
    if (!en_quick) for (int n = 0; n <= 256; n++) { if (!en_begin("threads=%d with every delay", n)) continue; for (int d = -1; d <= 258; d++) { if (n > 8 && d != n && d % 16 && d > 2) { Dav1dSettings s; dec_settings(&s, n, d); int fd = dav1d_get_frame_delay(&s); en_evals++; if ((d < 0 || d > 256) ? fd >= 0 : (fd < 1 || (d && fd > d) || (n && fd > n))) en_viol_("frame delay %d for %d threads, delay %d", fd, n, d); continue; } Dav1dSettings s; dec_settings(&s, n, d); try(&s, d >= 0 && d <= 256, d >= 0 && d <= 256); } }
out:
    return en_finish();
}
#else
/* ---- PART 2: frames of given sizes under a limit */
typedef struct { int w, h, kind; } Fr; /* kind 0 key, 1 inter, 2 inter with size taken from the reference, 3 intra-only, 4 key with super-resolution, 5 hidden key, 6 switch */
static const char *const kn[] = { "key", "inter", "refsize", "intra", "superres", "hiddenkey" };
enum { NK = 6 };
typedef struct { int t, d, split, kindmix; } Cfg;
static int allocs_before;
static int last_err;
static int got_pic; static int pic_w, pic_h;
static void step(Dav1dContext *c, const Pkt *k, int drain) {
    Dav1dData d; memset(&d, 0, sizeof(d)); if (dav1d_data_wrap(&d, k->p, k->n, dec_free_none, NULL)) exit(2);
    last_err = 0; got_pic = 0; allocs_before = atomic_load(&pa.allocs);
    for (int it = 0; d.sz && it < 50; it++) {
        int r = dav1d_send_data(c, &d);
        if (r && r != DAV1D_ERR(EAGAIN)) { last_err = r; dav1d_data_unref(&d); }
        if (r == DAV1D_ERR(EAGAIN)) { Dav1dPicture p; memset(&p, 0, sizeof(p)); r = dav1d_get_picture(c, &p); if (!r) { got_pic++; pic_w = p.p.w; pic_h = p.p.h; dav1d_picture_unref(&p); } else if (r != DAV1D_ERR(EAGAIN)) last_err = r; }
    }
    if (drain) for (int e = 0, it = 0; e < 2 && it < 50; it++) {
        Dav1dPicture p; memset(&p, 0, sizeof(p)); int r = dav1d_get_picture(c, &p);
        if (!r) { got_pic++; pic_w = p.p.w; pic_h = p.p.h; dav1d_picture_unref(&p); } else if (r == DAV1D_ERR(EAGAIN)) e++; else last_err = r;
    }
}
static void seqrun(const Fr *fr, int n, int sw, int sh, unsigned lim, int t, int dl, int split) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    aw_seq_default(&e->seq, sw, sh); e->seq.superres = 1;
    pa_init(&pa, 0, 0, -1);
    Dav1dSettings s; dec_settings(&s, t, dl); pa_use(&s, &pa); s.frame_size_limit = lim; s.output_invisible_frames = 1;
    Dav1dContext *c = NULL; if (dav1d_open(&c, &s)) { en_viol_("cannot open"); return; }
    int sz0w = 0, sz0h = 0, sent = 0; uint64_t oc = H0;
    for (int i = 0; i < n; i++) {
        const int kd = fr[i].kind; int w = fr[i].w, h = fr[i].h;
        const int key = kd == 0 || kd == 4 || kd == 5;
        aw_frm_default(e, &f, key ? 0 : kd == 3 ? 2 : 1); f.order_hint = i;
        if (!key && !sz0w) continue;                  /* nothing to refer to yet */
        f.size_override = 1; f.w = w; f.h = h; f.rw = w; f.rh = h; f.refresh = key && kd != 5 ? 255 : 1; f.show = kd != 5;
        if (kd == 1 || kd == 2) { for (int j = 0; j < 7; j++) f.refidx[j] = 0; }
        if (kd == 2) { f.found_ref = 0; w = sz0w; h = sz0h; }
        if (kd == 1 && (2 * w < sz0w || 2 * h < sz0h || w > 16 * sz0w || h > 16 * sz0h)) continue;
        if (kd == 4) { if (w < 20) continue; f.sr = 1; f.denom = 9 + i % 8; }
        const int refuse = lim && (uint64_t)w * h > lim;
        AwEnc sv = *e;
        b.n = 0; aw_put_td(&b); if (!sent) { aw_put_seq(e, &b); sv = *e; } sent = 1;
        put_frame(e, &f, &b, en_seed + i, payload_len(&f, w, h), split ? AW_SPLIT : 0);
        step(c, &(Pkt){ b.p, b.n, i }, 1);
        en_evals++;
        const int na = atomic_load(&pa.allocs) - allocs_before;
        oc = hu(oc, refuse * 2 + !!last_err);
        if (refuse) {
            if (last_err != DAV1D_ERR(ERANGE)) en_viol_("frame %d (%s %dx%d) exceeds the limit %u but was not refused with a range error (%d)", i, kn[kd], w, h, lim, last_err);
            if (got_pic) en_viol_("a picture was delivered for refused frame %d", i);
            if (na) en_viol_("%d pictures were allocated for refused frame %d", na, i);
            *e = sv; en_nontrivial++;
        } else {
            if (last_err) en_viol_("frame %d (%s %dx%d) is within the limit %u but failed with %d", i, kn[kd], w, h, lim, last_err);
            if (got_pic != 1 || pic_w != w || pic_h != h) en_viol_("frame %d (%s %dx%d, limit %u): %d pictures delivered, last %dx%d", i, kn[kd], w, h, lim, got_pic, pic_w, pic_h);
            sz0w = w; sz0h = h;
        }
    }
    en_seen(oc);
    dav1d_close(&c); if (atomic_load(&pa.live)) en_viol_("pictures left allocated");
    free(e); awb_free(&b);
}
/* frames far too large to decode: only the refusal and the attempt to allocate are observed */
static void huge(int w, int h, unsigned lim, int kind) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f; aw_seq_default(&e->seq, kind ? 65536 : w, kind ? 65536 : h); e->seq.superres = 1;
    pa_init(&pa, 0, 0, -1); atomic_store(&pa.fail_in, 0);
    Dav1dSettings s; dec_settings(&s, 1, 1); pa_use(&s, &pa); s.frame_size_limit = lim;
    Dav1dContext *c = NULL; if (dav1d_open(&c, &s)) { en_viol_("cannot open"); return; }
    aw_frm_default(e, &f, 0); if (kind) { f.size_override = 1; f.w = w; f.h = h; f.rw = w; f.rh = h; }
    /* as many uniform tiles as the format demands */
    f.log2c = 0; aw_put_td(&b); aw_put_seq(e, &b); aw_derive(e, &f); f.log2c = e->cur.min_log2c; f.log2r = 0; aw_derive(e, &f); if (e->cur.min_log2r) { f.log2r = e->cur.min_log2r; aw_derive(e, &f); }
    const int nt = aw_n_tiles(e); AwTile *tl = calloc(nt, sizeof(*tl)); static uint8_t junk[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; for (int i = 0; i < nt; i++) { tl[i].p = junk; tl[i].n = 8; }
    aw_put_frame(e, &f, tl, &b, 0);
    step(c, &(Pkt){ b.p, b.n, 0 }, 0); en_evals++;
    const int refuse = lim && (uint64_t)w * h > lim, tried = atomic_load(&pa.fail_in) < 0;
    if (refuse ? last_err != DAV1D_ERR(ERANGE) : last_err != DAV1D_ERR(ENOMEM)) en_viol_("frame %dx%d, limit %u: error %d", w, h, lim, last_err);
    if (tried == refuse) en_viol_("frame %dx%d, limit %u: %s", w, h, lim, tried ? "a picture was requested before the refusal" : "refused");
    en_nontrivial += refuse; dav1d_close(&c); free(tl); free(e); awb_free(&b);
}
int main(int argc, char **argv) {
    en_init(argc, argv);
    static const int D[][2] = { { 16, 16 }, { 8, 8 }, { 24, 16 }, { 16, 24 }, { 1, 1 }, { 17, 15 }, { 32, 8 }, { 33, 31 }, { 8, 40 }, { 64, 2 }, { 2, 64 }, { 48, 48 } };
    enum { ND = 12 };
    /* one to three frames of every kind and size, limits around each size */
    for (int a = 0; a < ND; a++) for (int ka = 0; ka < NK; ka++) if (ka == 0 || ka == 4 || ka == 5) for (int b = 0; b < ND; b++) for (int kb = 0; kb < NK; kb++) {
        if (en_quick && (a + b + ka + kb) % 2) continue;
        if (!en_begin("%s %dx%d, %s %dx%d", kn[ka], D[a][0], D[a][1], kn[kb], D[b][0], D[b][1])) continue;
        if (en_over()) goto out;
        const unsigned A = D[a][0] * D[a][1], B = D[b][0] * D[b][1];
        const unsigned L[] = { 0, A - 1, A, A + 1, B - 1, B, B + 1, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu };
        for (unsigned l = 0; l < sizeof(L) / sizeof(*L); l++) for (int z = 0; z < (en_quick ? 2 : ND); z++) {
            const int q = (a + b + l + z) % ND, kq = (a + kb + z + l) % NK;
            const Fr fr[4] = { { D[a][0], D[a][1], ka }, { D[b][0], D[b][1], kb }, { D[q][0], D[q][1], kq }, { D[a][0], D[a][1], 0 } };
            static const int T[4][2] = { { 1, 1 }, { 2, 2 }, { 3, 1 }, { 3, 3 } };
            const int t = (a + l + z) % 4;
            seqrun(fr, 4, 64, 64, L[l], T[t][0], T[t][1], (l + z) & 1);
            if (z == 0) { seqrun(fr, 4, 64, 64, L[l], 1, 1, !((l + z) & 1)); }
        }
        if (!b) en_sample("%s", en_case);
    }
    static const int H[][2] = { { 65536, 65536 }, { 65535, 65536 }, { 65536, 32768 }, { 32768, 65536 }, { 65535, 65537 - 1 }, { 46341, 46341 }, { 65536, 1 }, { 1, 65536 }, { 8192, 8192 }, { 8193, 8192 }, { 65521, 65521 } };
    for (int a = 0; a < 11; a++) for (int kind = 0; kind < 2; kind++) {
        if (!en_begin("huge %dx%d %d", H[a][0], H[a][1], kind)) continue;
        const uint64_t A = (uint64_t)H[a][0] * H[a][1];
        const uint64_t L[] = { A - 1, A, A + 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 1, 1 << 16, 1 << 26, 0 };
        for (unsigned l = 0; l < 10; l++) if (L[l] <= 0xFFFFFFFFu) huge(H[a][0], H[a][1], (unsigned)L[l], kind);
    }
out:
    return en_finish();
}
#endif

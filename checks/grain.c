/* S14: film grain.  PART 1 applies grain to constructed pictures over the
 * parameter space and compares with the specification's process; PART 2 decodes
 * streams with the built-in application, without it plus the separate call, and
 * against the model. */
#include "streams.h"
#include "enumh.h"
#include "palloc.h"
#include "fgmodel.h"

static void open_ctx(Dav1dContext **c, int t, int d, int grain, PA *pa) { Dav1dSettings s; dec_settings(&s, t, d); s.apply_grain = grain; if (pa) pa_use(&s, pa); if (dav1d_open(c, &s)) exit(2); }

#if PART == 1
static PA pa[2]; static Dav1dPicture base[2]; static Dav1dContext *ctx[2];
static Dav1dSequenceHeader sq; static Dav1dFrameHeader fh;
static void setup(void) {
    AwEnc *e = calloc(1, sizeof(*e)); AwFrm f; AwBuf b = { 0 }; aw_seq_default(&e->seq, 16, 16); e->seq.fg = 1; aw_put_td(&b); aw_put_seq(e, &b); aw_frm_default(e, &f, 0); st_grain(&f, 7); put_frame(e, &f, &b, 5, 1500, 0);
    for (int neg = 0; neg < 2; neg++) {
        pa_init(&pa[neg], neg, 1 + neg, -1); Dav1dContext *c; open_ctx(&c, 1, 1, 0, &pa[neg]);
        Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, b.p, b.n, dec_free_none, NULL); dav1d_send_data(c, &d); if (dav1d_get_picture(c, &base[neg])) exit(2); dav1d_close(&c);
    }
    open_ctx(&ctx[0], 1, 1, 0, NULL); open_ctx(&ctx[1], 3, 2, 0, NULL);
    /* grain is applied with a decoder that has decoded such pictures: it sets itself up for a bit depth when it meets it */
    for (int i = 0; i < 6; i++) {
        AwEnc *g = calloc(1, sizeof(*g)); AwBuf o = { 0 }; aw_seq_default(&g->seq, 16, 16); g->seq.hbd = i >> 1; g->seq.profile = i >> 1 == 2 ? 2 : 0; aw_put_td(&o); aw_put_seq(g, &o); aw_frm_default(g, &f, 0); put_frame(g, &f, &o, 5, 1500, 0);
        Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, o.p, o.n, dec_free_none, NULL); dav1d_send_data(ctx[i & 1], &d);
        Dav1dPicture p; memset(&p, 0, sizeof(p)); int r = -1; for (int z = 0; z < 4 && r; z++) r = dav1d_get_picture(ctx[i & 1], &p); if (r) exit(2); dav1d_picture_unref(&p); dav1d_flush(ctx[i & 1]); awb_free(&o); free(g);
    }
    sq = *base[0].seq_hdr; fh = *base[0].frame_hdr; free(e); awb_free(&b);
}
typedef struct { int layout, bd, w, h, content, neg; } Shape;
static struct { Shape s; Dav1dPicture p; FgPic m; int used; } in;
static void mk_in(const Shape *s) {
    if (in.used && !memcmp(&in.s, s, sizeof(*s))) return;
    if (in.used) { pa_release(&in.p, &pa[in.s.neg]); fg_pic_free(&in.m); }
    in.used = 1; in.s = *s; in.p = base[s->neg]; in.p.p.w = s->w; in.p.p.h = s->h; in.p.p.layout = s->layout; in.p.p.bpc = s->bd; in.p.data[0] = in.p.data[1] = in.p.data[2] = NULL; in.p.stride[0] = in.p.stride[1] = 0;
    if (pa_alloc(&in.p, &pa[s->neg])) exit(2);
    AwRng r = { 99 + s->w * 131 + s->h }; const int mx = (1 << s->bd) - 1;
    for (int i = 0; i < (s->layout ? 3 : 1); i++) {
        int w, h, bps; pic_planes(&in.p.p, i, &w, &h, &bps); const int aw = (s->w + 127) & ~127, ah = h;
        for (int y = 0; y < ah; y++) { uint8_t *d = (uint8_t *)in.p.data[i] + y * in.p.stride[!!i];
            for (int x = 0; x < (w == s->w ? aw : aw >> 1); x++) {
                unsigned v = s->content == 1 ? (i ? y : x) * (unsigned)(mx + 1) / (unsigned)(i ? s->h > mx ? mx + 1 : h : s->w > mx ? mx + 1 : w) : s->content == 2 ? (unsigned)(i == 0 ? x : y) : s->content == 3 ? ((x ^ y) & 1 ? (unsigned)mx : 0) : aw_rnd(&r);
                if (bps == 2) ((uint16_t *)d)[x] = v & mx; else d[x] = v & mx; } }
    }
    sq.layout = s->layout; sq.hbd = (s->bd - 8) / 2; in.p.seq_hdr = &sq; in.p.frame_hdr = &fh; fg_pic_from(&in.m, &in.p);
}
static int f_id;
static Dav1dFilmGrainData *const G = &fh.film_grain.data;
static void one(const Shape *s, int threads, const char *what) {
    mk_in(s); sq.mtrx = f_id ? DAV1D_MC_IDENTITY : DAV1D_MC_BT709;
    Dav1dPicture out; memset(&out, 0, sizeof(out)); en_evals++;
    const int r = dav1d_apply_grain(ctx[threads], &out, &in.p);
    if (r) { en_viol_("%s: dav1d_apply_grain returned %d", what, r); return; }
    FgPic m; fg_pic_from(&m, &in.p); int x = 0, y = 0, pl;
    if ((pl = fg_pic_cmp(&in.m, &in.p, &x, &y)) >= 0) { en_viol_("%s: the input picture changed (plane %d, %d,%d)", what, pl, x, y); }
    fg_apply(&m, G, f_id);
    if ((pl = fg_pic_cmp(&m, &out, &x, &y)) >= 0) en_viol_("%s: %s differs from the specification's process at plane %d, column %d, row %d", what, pl == 3 ? "size" : "grain", pl, x, y);
    if (fg_pic_cmp(&in.m, &out, &x, &y) >= 0) en_nontrivial++;
    en_seen(pic_pix_hash(&out));
    fg_pic_free(&m); dav1d_picture_unref(&out);
    if (atomic_load(&pa[0].bad) | atomic_load(&pa[1].bad)) { en_viol_("%s: wrote outside the planes", what); atomic_store(&pa[0].bad, 0); atomic_store(&pa[1].bad, 0); }
}
/* parameters are enumerated through representative values per field */
enum { F_SEED, F_Y, F_UV0, F_UV1, F_CSFL, F_SS, F_LAG, F_ARY, F_ARUV, F_ARSH, F_GSS, F_MULT, F_LMULT, F_OFF, F_OVER, F_CLIP, F_IDENT, F_NEG, F_CONTENT, F_THREADS, F_NB };
static const char *const fnm[] = { "seed", "y_points", "cb_points", "cr_points", "chroma_from_luma", "scaling_shift", "ar_lag", "ar_y", "ar_uv", "ar_shift", "grain_shift", "mult", "luma_mult", "offset", "overlap", "clip", "identity", "negative_stride", "content", "threads" };
static const int frep[] = { 4, 9, 9, 9, 2, 4, 4, 7, 7, 4, 4, 5, 5, 4, 2, 2, 2, 2, 3, 2 };
static int pts(uint8_t p[][2], int kind, int max) {
    static const uint8_t K[][4] = { { 0 }, { 0, 80 }, { 255, 200 }, { 0, 0, 255, 255 }, { 100, 255, 101, 3 }, { 16, 200, 235, 20 }, { 128, 255 }, { 0 }, { 0 } };
    switch (kind) {
    case 0: return 0;
    case 1: case 2: case 6: p[0][0] = K[kind][0]; p[0][1] = K[kind][1]; return 1;
    case 3: case 4: case 5: for (int i = 0; i < 2; i++) { p[i][0] = K[kind][2 * i]; p[i][1] = K[kind][2 * i + 1]; } return 2;
    case 7: for (int i = 0; i < max; i++) { p[i][0] = i * 255 / (max - 1); p[i][1] = i & 1 ? 255 : 7 * i; } return max;
    default: for (int i = 0; i < max; i++) { p[i][0] = 120 + i; p[i][1] = 255 - 20 * i; } return max;
    }
}
static void coefs(int8_t *c, int n, int kind) { for (int i = 0; i < n; i++) c[i] = kind == 0 ? 0 : kind == 1 ? 127 : kind == 2 ? -128 : kind == 3 ? (i * 37 + 11) % 19 - 9 : kind == 4 ? (i & 1 ? 127 : -128) : kind == 5 ? (i == n - 1 ? 64 : 0) : (i * 101 % 256) - 128; }
static void set(const int *v, Shape *s, int *threads) {
    memset(G, 0, sizeof(*G));
    static const unsigned seeds[] = { 1234, 0, 0xffff, 0x8001 };
    G->seed = v[F_SEED] < 4 ? seeds[v[F_SEED]] : (unsigned)v[F_SEED];
    G->num_y_points = pts(G->y_points, v[F_Y], 14);
    G->chroma_scaling_from_luma = v[F_CSFL] && s->layout;
    const int nouv = !s->layout || G->chroma_scaling_from_luma || (s->layout == DAV1D_PIXEL_LAYOUT_I420 && !G->num_y_points);
    int k[2] = { v[F_UV0], v[F_UV1] }; if (s->layout == DAV1D_PIXEL_LAYOUT_I420 && !k[0] != !k[1]) k[0] = k[1] = 3; /* both or none */
    for (int p = 0; p < 2; p++) G->num_uv_points[p] = nouv ? 0 : pts(G->uv_points[p], k[p], 10);
    static const int sh[4] = { 10, 8, 9, 11 }, lg[4] = { 3, 0, 1, 2 }, as[4] = { 7, 6, 8, 9 }, mu[5] = { 64, -128, 127, 0, 1 }, lm[5] = { 0, -128, 127, 64, -1 }, of[4] = { 0, -256, 255, 37 };
    G->scaling_shift = sh[v[F_SS]]; G->ar_coeff_lag = lg[v[F_LAG]];
    const int n = 2 * G->ar_coeff_lag * (G->ar_coeff_lag + 1);
    coefs(G->ar_coeffs_y, n, v[F_ARY] ? v[F_ARY] == 3 ? 0 : v[F_ARY] : 3);
    for (int p = 0; p < 2; p++) { coefs(G->ar_coeffs_uv[p], n + !!G->num_y_points, (v[F_ARUV] ? v[F_ARUV] == 3 ? 0 : v[F_ARUV] : 3)); if (p && n) G->ar_coeffs_uv[p][0] = -3; }
    G->ar_coeff_shift = as[v[F_ARSH]]; G->grain_scale_shift = v[F_GSS];
    for (int p = 0; p < 2; p++) { G->uv_mult[p] = mu[(v[F_MULT] + p * (v[F_MULT] > 2)) % 5]; G->uv_luma_mult[p] = lm[v[F_LMULT]]; G->uv_offset[p] = of[v[F_OFF]]; }
    G->overlap_flag = v[F_OVER]; G->clip_to_restricted_range = v[F_CLIP]; f_id = v[F_IDENT] && s->layout == DAV1D_PIXEL_LAYOUT_I444;
    s->neg = v[F_NEG]; s->content = v[F_CONTENT]; *threads = v[F_THREADS];
}
static const int bds[3] = { 8, 10, 12 };
static void def(int *v, int alt) { memset(v, 0, F_NB * sizeof(*v)); v[F_Y] = 3; v[F_UV0] = 5; v[F_UV1] = 7; v[F_OVER] = 1; if (alt & 1) { v[F_CSFL] = 1; v[F_OVER] = 0; } if (alt & 2) { v[F_CLIP] = 1; v[F_SS] = 1; v[F_ARY] = v[F_ARUV] = 6; v[F_LAG] = 2; } }
static void go(int *v, Shape *s) { char w[600]; int n = 0, t; for (int i = 0; i < F_NB && n < 500; i++) n += snprintf(w + n, sizeof(w) - n, "%s=%d,", fnm[i], v[i]); set(v, s, &t); snprintf(w + n, sizeof(w) - n, "layout=%d,depth=%d,%dx%d", s->layout, s->bd, s->w, s->h); one(s, t, w); }
static void fields(void) {
    int v[F_NB];
    for (int lay = 0; lay < 4; lay++) for (int b = 0; b < 3; b++) {
        Shape s = { lay, bds[b], 70, 69, 0, 0 };
        /* every pair of representative values of two fields, from two (four) base settings */
        for (int a = 0; a < F_NB; a++) for (int c = a + 1; c < F_NB; c++) for (int alt = 0; alt < (en_quick ? 1 : 4); alt++) {
            if (en_over()) return;
            if (!en_begin("pair:%d:%d:%s:%s:%d", lay, bds[b], fnm[a], fnm[c], alt)) continue;
            for (int x = 0; x < frep[a]; x++) for (int y = 0; y < frep[c]; y++) { def(v, en_quick ? (a + c) & 3 : alt); v[a] = x; v[c] = y; go(v, &s); }
        }
        for (int blk = 0; blk < 64; blk++) {
            if (en_over()) return;
            if (!en_begin("seeds:%d:%d:%d", lay, bds[b], blk)) continue;
            for (int sd = blk; sd < 65536; sd += 64 * (en_quick ? 97 : 3)) { def(v, sd >> 6 & 3); v[F_SEED] = sd; Shape q = { lay, bds[b], 37 + (sd & 3), 33 + (sd >> 2 & 7), 0, 0 }; go(v, &q); }
        }
    }
}
static void triples(void) {
    int v[F_NB];
    for (int lay = 0; lay < 4; lay++) for (int b = 0; b < 3; b++) for (int a = 1; a < F_NB; a++) for (int c = a + 1; c < F_NB; c++) for (int d = c + 1; d < F_NB; d++) {
        if (en_over()) return;
        if (!en_begin("triple:%d:%d:%s:%s:%s", lay, bds[b], fnm[a], fnm[c], fnm[d])) continue;
        Shape s = { lay, bds[b], 39, 35, 0, 0 };
        for (int x = 0; x < frep[a]; x++) for (int y = 0; y < frep[c]; y++) for (int z = 0; z < frep[d]; z++) { def(v, (a + c + d) & 3); v[a] = x; v[c] = y; v[d] = z; go(v, &s); }
    }
}
static void sizes(void) {
    static const int few[] = { 1, 2, 3, 16, 31, 32, 33, 34, 63, 64, 65, 66, 67, 95, 96, 97, 98 };
    int v[F_NB];
    for (int lay = 0; lay < 4; lay++) for (int b = 0; b < 3; b++) for (int w = 1; w <= 100; w++) {
        if (en_over()) return;
        if (!en_begin("sizes:%d:%d:%d", lay, bds[b], w)) continue;
        for (int hi = 0; hi < (en_quick ? 2 * 17 : 100); hi++) for (int k = 0; k < (en_quick ? 1 : 4); k++) {
            /* quick: each width with a few heights, and a few widths with each height */
            Shape s = { lay, bds[b], w, 1 + hi, 0, 0 };
            if (en_quick) { if (hi < 17) s.h = few[hi]; else { s.w = few[hi - 17]; s.h = w; } }
            def(v, en_quick ? 0 : k); v[F_NEG] = (w + hi) & 1; v[F_THREADS] = !en_quick && hi % 7 == 0; v[F_CONTENT] = hi % 3 == 2; go(v, &s);
        }
    }
}
/* every pair of luma and chroma sample values; every pair of scaling points */
static void values(void) {
    int v[F_NB];
    for (int b = 0; b < (en_quick ? 2 : 3); b++) for (int lay = DAV1D_PIXEL_LAYOUT_I420; lay <= DAV1D_PIXEL_LAYOUT_I444; lay++) for (int m = 0; m < 5 * 5 * 4; m++) {
        if (b && lay != DAV1D_PIXEL_LAYOUT_I444 && m % 20) continue;
        if (b == 2 && m % 50) continue;
        if (b == 1 && en_quick && m % 25) continue;
        if (en_over()) return;
        if (!en_begin("samples:%d:%d:%d", lay, bds[b], m)) continue;
        def(v, 0); v[F_MULT] = m % 5; v[F_LMULT] = m / 5 % 5; v[F_OFF] = m / 25; v[F_CONTENT] = 2; v[F_LAG] = 1; v[F_SS] = 1; v[F_CLIP] = m & 1; v[F_UV1] = 8;
        Shape s = { lay, bds[b], 1 << bds[b], 1 << bds[b], 2, 0 }; go(v, &s);
        v[F_CSFL] = 1; go(v, &s);
    }
    static const uint8_t sc[] = { 0, 1, 128, 255, 254 };
    for (int b = 0; b < 3; b++) for (int x0 = 0; x0 < 256; x0 += en_quick ? 5 : 1) {
        if (en_over()) return;
        if (!en_begin("points:%d:%d", bds[b], x0)) continue;
        for (int x1 = x0 + 1; x1 < 256; x1 += en_quick && x1 > x0 + 3 ? 7 : 1) for (int k = 0; k < (en_quick ? 2 : 6); k++) {
            def(v, 0); v[F_LAG] = 1; v[F_SS] = 1; v[F_CONTENT] = 1; Shape s = { 0, bds[b], b == 0 ? 256 : 512, 8, 1, 0 }; int t; set(v, &s, &t);
            const int y0 = sc[(x0 + x1 + k) % 5], y1 = sc[(x0 + x1 * 3 + 2 * k + 1) % 5];
            G->num_y_points = 2; G->y_points[0][0] = x0; G->y_points[0][1] = y0; G->y_points[1][0] = x1; G->y_points[1][1] = y1;
            char w[100]; snprintf(w, sizeof(w), "points (%d,%d) (%d,%d) depth %d", x0, y0, x1, y1, bds[b]); one(&s, 0, w);
        }
    }
}
static void nograin(void) {
    if (!en_begin("nograin")) return;
    int v[F_NB], t; Shape s = { 1, 8, 33, 33, 0, 0 };
    for (int clip = 0; clip < 2; clip++) for (int th = 0; th < 2; th++) for (int neg = 0; neg < 2; neg++) {
        def(v, 0); v[F_Y] = v[F_UV0] = v[F_UV1] = 0; v[F_CLIP] = clip; v[F_NEG] = neg; set(v, &s, &t); mk_in(&s);
        Dav1dPicture o; memset(&o, 0, sizeof(o)); en_evals++;
        if (dav1d_apply_grain(ctx[th], &o, &in.p)) { en_viol_("refused"); continue; }
        int x, y; if (fg_pic_cmp(&in.m, &o, &x, &y) >= 0) en_viol_("a picture without grain changed"); else en_nontrivial++;
        dav1d_picture_unref(&o);
    }
}
int main(int argc, char **argv) {
    en_init(argc, argv); setup(); en_hang_s = 120;
    nograin(); fields(); sizes(); values(); if (!en_quick) triples();
    if (in.used) { pa_release(&in.p, &pa[in.s.neg]); fg_pic_free(&in.m); }
    for (int i = 0; i < 2; i++) { dav1d_picture_unref(&base[i]); dav1d_close(&ctx[i]); }
    snprintf(en_case, sizeof(en_case), "end"); if (atomic_load(&pa[0].live) || atomic_load(&pa[1].live)) en_viol_("%d pictures never released", atomic_load(&pa[0].live) + atomic_load(&pa[1].live));
    return en_finish();
}
#else
/* ------------------------------------------------------------------ streams */
enum { K, KN, N, U, P, H, HP, X, I, Z, NTOK };
static const char tn[] = "KkNUPHhXIZ";
/* K key with grain, k key without, N inter with new grain, U inter inheriting grain from slot 0, P inter without grain (parameters absent),
 * H hidden inter with grain -> slot 1, h hidden inheriting, X show slot 1, I intra-only with grain, Z hidden key with grain -> slot 1 */
static AwEnc enc; static uint8_t pay[2][16384];
typedef struct { int layout, hbd, w, h, id; } Fmt;
static const Fmt fmts[] = { { 1, 0, 38, 34, 0 }, { 3, 0, 35, 66, 0 }, { 0, 0, 33, 35, 0 }, { 1, 1, 37, 33, 0 }, { 3, 1, 33, 34, 1 }, { 3, 2, 17, 36, 0 }, { 1, 2, 39, 35, 0 }, { 0, 2, 16, 16, 0 }, { 2, 0, 8, 8, 0 }, { 2, 1, 8, 8, 0 } };
enum { NFMT = sizeof(fmts) / sizeof(*fmts) };
/* which planes get grain, and how: coded in every combination the syntax allows */
enum { NCLS = 12 };
static int cls_of[2] = { -1, -1 };
static void grain_class(AwFrm *f, int c, const Fmt *F) {
    AwGrain *g = &f->fg; const int c444 = F->layout == 3, mono = F->layout == 0;
    g->cfl = 0; g->clip = c & 1; g->lag = c % 4;
    switch (c) {
    case 0: case 1: g->nuv[0] = g->nuv[1] = 0; break;                          /* luma only */
    case 2: g->ny = 0; g->nuv[0] = g->nuv[1] = 0; g->clip = 1; break;          /* nothing but clipping: no effect */
    case 3: g->ny = 0; g->nuv[0] = g->nuv[1] = 0; g->cfl = !mono; g->clip = 1; break;
    case 4: g->ny = 0; g->nuv[0] = g->nuv[1] = 0; g->cfl = !mono; break;
    case 5: case 6: g->nuv[0] = g->nuv[1] = 0; g->cfl = !mono; break;
    case 7: g->ny = 0; break;                                                  /* chroma only */
    case 8: g->ny = 0; g->nuv[1] = 0; break;
    case 9: g->ny = 0; g->nuv[0] = 0; break;
    case 10: g->nuv[0] = 0; break;
    case 11: break;
    }
    if (mono) g->nuv[0] = g->nuv[1] = 0;
    if (F->layout == 1 && (!g->ny || !g->nuv[0] != !g->nuv[1])) g->nuv[0] = g->nuv[1] = 0; /* 4:2:0: both or none, none without luma */
}
static int build(const int *a, int n, const Fmt *F, Pkts *k, int *shown) {
    AwBuf b = { 0 }; memset(&enc, 0, sizeof(enc)); memset(k, 0, sizeof(*k)); *shown = 0;
    AwSeq *q = &enc.seq; aw_seq_default(q, F->w, F->h); q->fg = 1; q->hbd = F->hbd; q->mono = F->layout == 0; q->cdesc = F->id; q->pri = 1; q->trc = 1; q->mtx = 0; q->range = 1;
    if (!F->id) q->cdesc = 0;
    if (F->layout == 1) { q->ssx = q->ssy = 1; } else if (F->layout == 2) { q->ssx = 1; q->ssy = 0; } else { q->ssx = q->ssy = F->layout == 3 ? 0 : 1; }
    q->profile = F->hbd == 2 || F->layout == 2 ? 2 : F->layout == 3 ? 1 : 0;
    int s0 = 0, s1 = 0, g0 = 0, g1 = 0;
    for (int i = 0; i < n; i++) {
        b.n = 0; aw_put_td(&b); if (!i) aw_put_seq(&enc, &b);
        const int t = a[i];
        if (t == X) { if (!s1) { awb_free(&b); return 0; } aw_put_show_existing(&enc, 1, &b); pk_add(k, &b); ++*shown; if (s1 == 2) { s0 = 1; g0 = g1; s1 = 1; } else if (s1 == 3) s1 = 3; continue; }
        if (t != K && t != KN && t != Z && !s0) { awb_free(&b); return 0; }
        AwFrm f; aw_frm_default(&enc, &f, t == K || t == KN || t == Z ? 0 : t == I ? 2 : 1); f.order_hint = i + 1;
        if (t == H || t == HP || t == Z) f.show = 0; else ++*shown;
        if (f.type == 1) { for (int j = 0; j < 7; j++) f.refidx[j] = 0; f.refresh = f.show ? 1 : 2; f.primary = 7; }
        if (t == I) f.refresh = 4;
        if (t == Z) f.refresh = 2;
        if (t != KN && t != P && !((t == U || t == HP) && !g0)) {
            st_grain(&f, 1000 * i + 77);
            if (F->layout == 0) f.fg.nuv[0] = f.fg.nuv[1] = 0;
            if (i & 1) { f.fg.cfl = F->layout != 0; if (f.fg.cfl) f.fg.nuv[0] = f.fg.nuv[1] = 0; f.fg.clip = 1; f.fg.lag = 3; f.fg.overlap = i >> 1 & 1; }
            if (cls_of[0] >= 0) { grain_class(&f, cls_of[i & 1], F); f.fg.overlap = i & 1; }
            if (t == U || t == HP) { f.fg.update = 0; f.fg.ref_slot = 0; }
        }
        aw_derive(&enc, &f);
        int len = F->w * F->h * 3; if (len < 1500) len = 1500;
        AwTile tl = { pay[i & 1], len }; aw_put_frame(&enc, &f, &tl, &b, 0); pk_add(k, &b);
        const int gr = f.fg.apply;
        if (t == K || t == KN) { s0 = s1 = 1; g0 = g1 = gr; s1 = 3; }
        else if (t == Z) { s1 = 2; g1 = gr; } else if (t == H || t == HP) { s1 = 3; g1 = gr; } else if (t != I) g0 = gr;
    }
    awb_free(&b); return *shown > 0;
}
static const struct { int t, d; } cfg[] = { { 1, 1 }, { 3, 1 }, { 2, 2 }, { 4, 3 } };
typedef struct { Dav1dPicture p[16]; int n, err; } Out;
static void decode(Dav1dContext *c, const Pkts *k, Out *o, Dav1dContext *ap, Out *g, int when) {
    memset(o, 0, sizeof(*o)); if (g) memset(g, 0, sizeof(*g));
    for (int i = 0, dr = 0; i < k->n || dr < 2;) {
        if (i < k->n) { Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, k->v[i].p, k->v[i].n, dec_free_none, NULL); d.m.timestamp = i; const int r = dav1d_send_data(c, &d); if (!r) i++; else { dav1d_data_unref(&d); if (r != DAV1D_ERR(EAGAIN)) { o->err = 1; i++; } } }
        Dav1dPicture p; memset(&p, 0, sizeof(p)); const int r = dav1d_get_picture(c, &p);
        if (r == DAV1D_ERR(EAGAIN)) { if (i >= k->n) dr++; continue; }
        if (r) { o->err = 1; if (++dr > 20) break; continue; }
        dr = 0; if (o->n == 16) { dav1d_picture_unref(&p); o->err = 1; continue; }
        o->p[o->n++] = p;
        if (g && when == 0) { memset(&g->p[g->n], 0, sizeof(p)); if (dav1d_apply_grain(ap, &g->p[g->n], &p)) { g->err = 1; } else g->n++; }
    }
    if (g && when == 1) for (int i = o->n - 1; i >= 0; i--) { memset(&g->p[i], 0, sizeof(g->p[i])); if (dav1d_apply_grain(ap, &g->p[i], &o->p[i])) g->err = 1; else g->n++; }
}
static void freeo(Out *o) { for (int i = 0; i < o->n; i++) if (o->p[i].data[0]) dav1d_picture_unref(&o->p[i]); o->n = 0; }
static PA pa; static Dav1dContext *cg[4], *cn[4];
static void run(const int *a, int n, const Fmt *F, const char *s) {
    Pkts k; int shown;
    if (!build(a, n, F, &k, &shown)) { pk_free(&k); return; }
    static Out base, A, G; int ok = 1;
    /* grain-free decode, single thread, and the model on top of it */
    if (!cn[0]) for (int i = 0; i < 4; i++) { open_ctx(&cg[i], cfg[i].t, cfg[i].d, 1, &pa); open_ctx(&cn[i], cfg[i].t, cfg[i].d, 0, &pa); }
    decode(cn[0], &k, &base, NULL, NULL, 0); dav1d_flush(cn[0]);
    if (base.err || base.n != shown) { if (F->layout != 2) en_viol_("%s: the stream did not decode (%d of %d pictures)", s, base.n, shown); freeo(&base); pk_free(&k); return; }
    FgPic plain[16], want[16]; uint64_t meta[16]; int x, y, pl;
    for (int i = 0; i < base.n; i++) { fg_pic_from(&plain[i], &base.p[i]); fg_pic_from(&want[i], &base.p[i]); meta[i] = pic_meta_hash(&base.p[i]); fg_apply(&want[i], &base.p[i].frame_hdr->film_grain.data, F->id); if (fg_pic_cmp(&want[i], &base.p[i], &x, &y) >= 0) en_nontrivial++; }
    for (int ci = 0; ci < 4 && ok; ci++) {
        en_evals += 3;
        decode(cg[ci], &k, &A, NULL, NULL, 0);
        if (A.n != base.n || A.err) { en_viol_("%s threads=%d delay=%d: %d pictures with grain, %d without", s, cfg[ci].t, cfg[ci].d, A.n, base.n); ok = 0; }
        for (int i = 0; ok && i < A.n; i++) {
            if ((pl = fg_pic_cmp(&want[i], &A.p[i], &x, &y)) >= 0) { en_viol_("%s threads=%d delay=%d: picture %d with built-in grain differs (plane %d, %d,%d)", s, cfg[ci].t, cfg[ci].d, i, pl, x, y); ok = 0; }
            else if (pic_meta_hash(&A.p[i]) != meta[i]) { en_viol_("%s threads=%d delay=%d: picture %d carries other properties with built-in grain", s, cfg[ci].t, cfg[ci].d, i); ok = 0; }
        }
        for (int when = 0; when < 2 && ok; when++) {
            Out N; decode(cn[ci], &k, &N, when ? cg[ci] : cn[ci], &G, when);
            if (N.n != base.n || N.err || G.err || G.n != N.n) { en_viol_("%s threads=%d delay=%d: separate application failed", s, cfg[ci].t, cfg[ci].d); ok = 0; }
            for (int i = 0; ok && i < N.n; i++) {
                if ((pl = fg_pic_cmp(&want[i], &G.p[i], &x, &y)) >= 0) { en_viol_("%s threads=%d delay=%d: picture %d with separate grain differs (plane %d, %d,%d)", s, cfg[ci].t, cfg[ci].d, i, pl, x, y); ok = 0; }
                else if ((pl = fg_pic_cmp(&plain[i], &N.p[i], &x, &y)) >= 0) { en_viol_("%s threads=%d delay=%d: held grain-free picture %d changed (plane %d, %d,%d)", s, cfg[ci].t, cfg[ci].d, i, pl, x, y); ok = 0; }
                else if (pic_meta_hash(&G.p[i]) != meta[i]) { en_viol_("%s threads=%d delay=%d: picture %d carries other properties with separate grain", s, cfg[ci].t, cfg[ci].d, i); ok = 0; }
                en_seen(pic_pix_hash(&G.p[i]));
            }
            freeo(&N); freeo(&G); dav1d_flush(cn[ci]);
        }
        freeo(&A); dav1d_flush(cg[ci]);
    }
    for (int i = 0; i < base.n; i++) { if (ok && (pl = fg_pic_cmp(&plain[i], &base.p[i], &x, &y)) >= 0) en_viol_("%s: held picture %d changed", s, i); fg_pic_free(&plain[i]); fg_pic_free(&want[i]); }
    freeo(&base); pk_free(&k);
    if (atomic_load(&pa.bad)) { en_viol_("%s: wrote outside the planes", s); atomic_store(&pa.bad, 0); }
}
int main(int argc, char **argv) {
    en_init(argc, argv); en_hang_s = 120; pa_init(&pa, 0, 0, 0x77);
    for (int p = 0; p < 2; p++) { AwRng r = { en_seed * 31 + p * 7 + 3 }; for (int j = 0; j < 16384; j++) pay[p][j] = (uint8_t)aw_rnd(&r); }
    for (int fi = 0; fi < NFMT; fi++) for (int a = 0; a < NCLS; a++) for (int b = 0; b < NCLS; b++) {
        if (en_over()) goto end;
        if (!en_begin("planes:%d:%d:%d", fi, a, b)) continue;
        cls_of[0] = a; cls_of[1] = b; const int w1[2] = { K, N }, w2[3] = { K, HP, X }; run(w1, 2, &fmts[fi], "KN"); if (!en_quick || a == b) run(w2, 3, &fmts[fi], "KhX"); cls_of[0] = -1;
    }
    for (int depth = 1; depth <= (en_quick ? 3 : 5); depth++) for (int fi = 0; fi < NFMT; fi++) {
        if (depth > 3 && fi > 4) break;
        if (depth > 4 && fi) break;
        const Fmt *F = &fmts[fi];
        if (fi && en_quick && depth > 2 && fi > 3) continue;
        /* a payload every frame kind can be decoded with */
        int tot = 1; for (int i = 0; i < depth - 1; i++) tot *= NTOK;
        for (int p = 0; p < 2; p++) { AwRng r = { en_seed * 31 + p * 7 + fi + 3 }; for (int j = 0; j < 16384; j++) pay[p][j] = (uint8_t)aw_rnd(&r); }
        for (int b = 0; b < 3 * tot; b++) {
            if (en_over()) goto end;
            int a[8], y = b / 3; static const int first[3] = { K, KN, Z }; a[0] = first[b % 3]; char s[16]; s[0] = tn[a[0]];
            for (int i = 1; i < depth; i++) { a[i] = y % NTOK; y /= NTOK; s[i] = tn[a[i]]; } s[depth] = 0;
            if (!en_begin("stream:%d:%s", fi, s)) continue;
            run(a, depth, F, s);
        }
    }
end:
    for (int i = 0; i < 4; i++) if (cn[i]) { dav1d_close(&cg[i]); dav1d_close(&cn[i]); }
    snprintf(en_case, sizeof(en_case), "end"); if (atomic_load(&pa.live)) en_viol_("%d pictures never released", atomic_load(&pa.live));
    return en_finish();
}
#endif

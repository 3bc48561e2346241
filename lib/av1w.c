#include "av1w.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

/* ---------------------------------------------------------------- buffers */
static void die(const char *m) { fprintf(stderr, "av1w: %s\n", m); abort(); }
void awb_reset(AwBuf *b) { b->n = 0; }
void awb_free(AwBuf *b) { free(b->p); memset(b, 0, sizeof(*b)); }
static void need(AwBuf *b, size_t n) {
    if (b->n + n > b->cap) {
        b->cap = (b->n + n) * 2 + 256;
        b->p = realloc(b->p, b->cap);
        if (!b->p) die("oom");
    }
}
void awb_put(AwBuf *b, const void *p, size_t n) { if (!n) return; need(b, n); memcpy(b->p + b->n, p, n); b->n += n; }
void awb_u8(AwBuf *b, unsigned v) { need(b, 1); b->p[b->n++] = (uint8_t)v; }

static void w1(AwBits *w, unsigned v) {
    if (w->bit == 0) { awb_u8(&w->b, 0); }
    if (v & 1) w->b.p[w->b.n - 1] |= 0x80 >> w->bit;
    w->bit = (w->bit + 1) & 7;
    w->nbits++;
}
static void wf(AwBits *w, int n, uint64_t v) {
    for (int i = n - 1; i >= 0; i--) w1(w, (unsigned)(v >> i));
}
static void wsu(AwBits *w, int n, int v) { wf(w, n, (uint64_t)(int64_t)v & ((1ull << n) - 1)); }
static void wns(AwBits *w, unsigned n, unsigned v) {
    int k = 0; unsigned x = n;
    while (x) { x >>= 1; k++; }
    const unsigned m = (1u << k) - n;
    if (k == 0) return;
    if (v < m) wf(w, k - 1, v);
    else {
        const unsigned e = (v - m) & 1;
        wf(w, k - 1, (v + m) >> 1);
        (void)e;
        w1(w, (v + m) & 1);
    }
}
static void wuvlc(AwBits *w, uint32_t v) {
    uint64_t x = (uint64_t)v + 1; int n = 0;
    while (x >> (n + 1)) n++;
    for (int i = 0; i < n; i++) w1(w, 0);
    w1(w, 1);
    if (n) wf(w, n, x - (1ull << n));
}
static void walign(AwBits *w) { w->bit = 0; }
static void wtrail(AwBits *w) { w1(w, 1); w->bit = 0; }

uint32_t aw_rnd(AwRng *r) {
    r->s = r->s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t x = r->s; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
    return (uint32_t)(x >> 16);
}

/* -------------------------------------------------------------------- OBU */
void aw_leb128(AwBuf *b, uint64_t v) {
    do { unsigned c = v & 0x7f; v >>= 7; awb_u8(b, c | (v ? 0x80 : 0)); } while (v);
}
void aw_obu(AwBuf *out, int type, int ext, int tid, int sid, int has_size,
            const uint8_t *payload, size_t n)
{
    awb_u8(out, (unsigned)(type << 3 | (ext ? 4 : 0) | (has_size ? 2 : 0)));
    if (ext) awb_u8(out, (unsigned)(tid << 5 | sid << 3));
    if (has_size) aw_leb128(out, n);
    awb_put(out, payload, n);
}
void aw_put_td(AwBuf *out) { aw_obu(out, 2, 0, 0, 0, 1, NULL, 0); }

/* ------------------------------------------------------------ seq header */
void aw_seq_default(AwSeq *s, int w, int h) {
    memset(s, 0, sizeof(*s));
    s->n_op = 1;
    s->op[0].level = 8;
    s->w = w; s->h = h;
    s->wbits = s->hbits = 16;
    s->order_hint = 1; s->oh_bits = 7;
    s->filter_intra = s->intra_edge = s->interintra = s->masked = s->warped = 1;
    s->dual = s->jnt = s->refmvs = 1;
    s->sct = 2; s->fimv = 2;
    s->cdef = 1; s->lr = 1;
    s->pri = s->trc = s->mtx = 2;
    s->ssx = s->ssy = 1;
}
static void seq_bits(const AwSeq *s, AwBits *w) {
    wf(w, 3, s->profile); w1(w, s->still); w1(w, s->reduced);
    if (s->reduced) wf(w, 5, s->op[0].level);
    else {
        w1(w, s->timing);
        if (s->timing) {
            wf(w, 32, s->units_tick); wf(w, 32, s->time_scale);
            w1(w, s->equal_pic);
            if (s->equal_pic) wuvlc(w, s->ticks_m1);
            w1(w, s->dec_model);
            if (s->dec_model) {
                wf(w, 5, s->enc_delay_len - 1); wf(w, 32, s->units_dec_tick);
                wf(w, 5, s->rem_len - 1); wf(w, 5, s->pres_len - 1);
            }
        }
        w1(w, s->disp_model);
        wf(w, 5, s->n_op - 1);
        for (int i = 0; i < s->n_op; i++) {
            wf(w, 12, s->op[i].idc);
            wf(w, 5, s->op[i].level);
            if (s->op[i].level > 7) w1(w, s->op[i].tier);
            if (s->timing && s->dec_model) {
                w1(w, s->op[i].dm_present);
                if (s->op[i].dm_present) {
                    wf(w, s->enc_delay_len, s->op[i].dbd);
                    wf(w, s->enc_delay_len, s->op[i].ebd);
                    w1(w, s->op[i].low);
                }
            }
            if (s->disp_model) {
                w1(w, s->op[i].disp_present);
                if (s->op[i].disp_present) wf(w, 4, s->op[i].disp_m1);
            }
        }
    }
    wf(w, 4, s->wbits - 1); wf(w, 4, s->hbits - 1);
    wf(w, s->wbits, s->w - 1); wf(w, s->hbits, s->h - 1);
    if (!s->reduced) {
        w1(w, s->frame_ids);
        if (s->frame_ids) { wf(w, 4, s->delta_id_len - 2); wf(w, 3, s->id_len - s->delta_id_len - 1); }
    }
    w1(w, s->sb128); w1(w, s->filter_intra); w1(w, s->intra_edge);
    if (!s->reduced) {
        w1(w, s->interintra); w1(w, s->masked); w1(w, s->warped); w1(w, s->dual);
        w1(w, s->order_hint);
        if (s->order_hint) { w1(w, s->jnt); w1(w, s->refmvs); }
        w1(w, s->sct == 2); if (s->sct != 2) w1(w, s->sct);
        if (s->sct) { w1(w, s->fimv == 2); if (s->fimv != 2) w1(w, s->fimv); }
        if (s->order_hint) wf(w, 3, s->oh_bits - 1);
    }
    w1(w, s->superres); w1(w, s->cdef); w1(w, s->lr);
    /* color_config */
    w1(w, s->hbd > 0);
    if (s->profile == 2 && s->hbd > 0) w1(w, s->hbd == 2);
    if (s->profile != 1) w1(w, s->mono);
    w1(w, s->cdesc);
    int pri = 2, trc = 2, mtx = 2;
    if (s->cdesc) { wf(w, 8, pri = s->pri); wf(w, 8, trc = s->trc); wf(w, 8, mtx = s->mtx); }
    const int mono = s->profile != 1 && s->mono;
    if (mono) w1(w, s->range);
    else if (pri == 1 && trc == 13 && mtx == 0) { /* sRGB */ }
    else {
        w1(w, s->range);
        if (s->profile == 2 && s->hbd == 2) { w1(w, s->ssx); if (s->ssx) w1(w, s->ssy); }
        const int ssx = s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx : 1;
        const int ssy = s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx && s->ssy : 0;
        if (ssx && ssy) wf(w, 2, s->chr);
    }
    if (!mono) w1(w, s->sep_uv);
    w1(w, s->fg);
}
static int seq_ssx(const AwSeq *s) {
    if (s->profile != 1 && s->mono) return 1;
    if (s->cdesc && s->pri == 1 && s->trc == 13 && s->mtx == 0) return 0;
    return s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx : 1;
}
static int seq_ssy(const AwSeq *s) {
    if (s->profile != 1 && s->mono) return 1;
    if (s->cdesc && s->pri == 1 && s->trc == 13 && s->mtx == 0) return 0;
    return s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx && s->ssy : 0;
}
size_t aw_seq_payload(const AwSeq *s, AwBuf *out) {
    AwBits w; memset(&w, 0, sizeof(w));
    seq_bits(s, &w); wtrail(&w);
    awb_put(out, w.b.p, w.b.n);
    const size_t n = w.b.n;
    awb_free(&w.b);
    return n;
}
void aw_put_seq(AwEnc *e, AwBuf *out) {
    AwBuf p = { 0 };
    aw_seq_payload(&e->seq, &p);
    aw_obu(out, 1, 0, 0, 0, 1, p.p, p.n);
    awb_free(&p);
    e->seq_valid = 1;
}

/* ---------------------------------------------------------- frame header */
static const int gm_default[6] = { 0, 0, 1 << 16, 0, 0, 1 << 16 };
static const int lf_ref_default[8] = { 1, 0, 0, 0, -1, 0, -1, -1 };
static int imax_(int a, int b) { return a > b ? a : b; }
static int imin_(int a, int b) { return a < b ? a : b; }
static int tlog2(int blk, int target) { int k = 0; while ((blk << k) < target) k++; return k; }

static int rel_dist(const AwSeq *s, int a, int b) {
    if (!s->order_hint) return 0;
    int diff = a - b;
    const int m = 1 << (s->oh_bits - 1);
    return (diff & (m - 1)) - (diff & m);
}

void aw_frm_default(const AwEnc *e, AwFrm *f, int type) {
    memset(f, 0, sizeof(*f));
    f->type = type; f->show = 1; f->showable = 1;
    f->refresh = type == 0 || type == 3 ? 0xff : type == 2 ? 0x01 : 0x01;
    f->err_res = type == 0 || type == 3;
    f->primary = 7;
    f->found_ref = -1;
    f->w = e->seq.w; f->h = e->seq.h; f->denom = 8;
    f->uniform = 1; f->size_bytes = 4;
    f->yac = 100;
    f->lf_y0 = f->lf_y1 = 12; f->lf_u = f->lf_v = 8; f->lf_de = 1;
    f->cdef_bits = 0; f->cdef_y[0] = 0x11; f->cdef_uv[0] = 0x12;
    f->tx_select = 1;
    f->filter = 4;
    f->hp = 1; f->warp = 1; f->sw_motion = 1;
    for (int i = 0; i < 7; i++) for (int j = 0; j < 6; j++) f->gm[i][j] = gm_default[j];
    f->rw = f->w; f->rh = f->h;
    f->nc = f->nr = 1;
}

static void set_frame_refs(const AwEnc *e, const AwFrm *f, int last, int gold, int out[7]) {
    /* specification section 7.8 */
    const AwSeq *s = &e->seq;
    int used[8] = { 0 }, shifted[8];
    const int cur = 1 << (s->oh_bits - 1);
    for (int i = 0; i < 7; i++) out[i] = -1;
    out[0] = last; out[3] = gold; used[last] = used[gold] = 1;
    for (int i = 0; i < 8; i++)
        shifted[i] = cur + rel_dist(s, e->ref[i].f.order_hint, f->order_hint);
    /* ALTREF: latest backward */
    int ref = -1, best = 0;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= cur && (ref < 0 || shifted[i] >= best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[6] = ref; used[ref] = 1; }
    ref = -1;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= cur && (ref < 0 || shifted[i] < best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[4] = ref; used[ref] = 1; }
    ref = -1;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= cur && (ref < 0 || shifted[i] < best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[5] = ref; used[ref] = 1; }
    static const int list[5] = { 1, 2, 4, 5, 6 };
    for (int k = 0; k < 5; k++) {
        if (out[list[k]] >= 0) continue;
        ref = -1;
        for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] < cur && (ref < 0 || shifted[i] >= best)) { ref = i; best = shifted[i]; }
        if (ref >= 0) { out[list[k]] = ref; used[ref] = 1; }
    }
    ref = -1;
    for (int i = 0; i < 8; i++) if (ref < 0 || shifted[i] < best) { ref = i; best = shifted[i]; }
    for (int i = 0; i < 7; i++) if (out[i] < 0) out[i] = ref;
}

static int recenter(int r, int v) { /* inverse of inverse_recenter */
    if (v > 2 * r) return v;
    if (v >= r) return (v - r) * 2;
    return (r - v) * 2 - 1;
}
static void wsubexp(AwBits *w, int num, int v) {
    int i = 0, mk = 0;
    const int k = 3;
    for (;;) {
        const int b2 = i ? k + i - 1 : k, a = 1 << b2;
        if (num <= mk + 3 * a) { wns(w, num - mk, v - mk); return; }
        const int more = v >= mk + a;
        w1(w, more);
        if (!more) { wf(w, b2, v - mk); return; }
        i++; mk += a;
    }
}
static void wsigned_subexp(AwBits *w, int low, int high, int r, int v) {
    const int mx = high - low, rr = r - low, x = v - low;
    int c;
    if ((rr << 1) <= mx) c = recenter(rr, x);
    else c = recenter(mx - 1 - rr, mx - 1 - x);
    wsubexp(w, mx, c);
}

static void grain_bits(const AwSeq *s, const AwFrm *f, const AwGrain *g, AwBits *w, AwRef *c, const AwEnc *e) {
    memset(&c->fg, 0, sizeof(c->fg));
    if (!s->fg || !(f->show || c->showable)) return;
    w1(w, g->apply);
    if (!g->apply) return;
    wf(w, 16, g->seed);
    const int update = f->type != 1 || g->update;
    if (f->type == 1) w1(w, g->update);
    if (!update) {
        wf(w, 3, g->ref_slot);
        c->fg = e->ref[g->ref_slot].fg;
        c->fg.seed = g->seed; c->fg.apply = c->fg.apply == 1 ? 1 : 2; c->fg.update = 0; /* 2: the reference had no grain */
        return;
    }
    c->fg = *g; c->fg.update = 1;
    AwGrain *o = &c->fg;
    const int mono = s->profile != 1 && s->mono, ssx = seq_ssx(s), ssy = seq_ssy(s);
    wf(w, 4, g->ny);
    for (int i = 0; i < g->ny; i++) { wf(w, 8, g->y[i][0]); wf(w, 8, g->y[i][1]); }
    if (mono) o->cfl = 0; else w1(w, g->cfl);
    if (mono || o->cfl || (ssx && ssy && !g->ny)) o->nuv[0] = o->nuv[1] = 0;
    else for (int p = 0; p < 2; p++) {
        wf(w, 4, g->nuv[p]);
        for (int i = 0; i < g->nuv[p]; i++) { wf(w, 8, g->uv[p][i][0]); wf(w, 8, g->uv[p][i][1]); }
    }
    wf(w, 2, g->scaling_m8); wf(w, 2, g->lag);
    const int np = 2 * g->lag * (g->lag + 1);
    if (g->ny) for (int i = 0; i < np; i++) wf(w, 8, g->ar_y[i] + 128);
    for (int p = 0; p < 2; p++) if (o->cfl || o->nuv[p])
        for (int i = 0; i < np + !!g->ny; i++) wf(w, 8, g->ar_uv[p][i] + 128);
    wf(w, 2, g->ar_shift_m6); wf(w, 2, g->grain_shift);
    for (int p = 0; p < 2; p++) if (o->nuv[p]) {
        wf(w, 8, g->cb_mult[p]); wf(w, 8, g->cb_luma[p]); wf(w, 9, g->cb_off[p]);
    }
    w1(w, g->overlap); w1(w, g->clip);
}

static void superres_params(const AwSeq *s, const AwFrm *f, AwBits *w, AwRef *c) {
    c->denom = 8;
    if (s->superres) {
        w1(w, f->sr);
        if (f->sr) { wf(w, 3, f->denom - 9); c->denom = f->denom; }
    }
    c->fw = c->denom == 8 ? c->uw : imax_((c->uw * 8 + c->denom / 2) / c->denom, imin_(16, c->uw));
}
static void frame_size(const AwSeq *s, const AwFrm *f, AwBits *w, AwRef *c, int override) {
    if (override) { wf(w, s->wbits, f->w - 1); wf(w, s->hbits, f->h - 1); c->uw = f->w; c->h = f->h; }
    else { c->uw = s->w; c->h = s->h; }
    superres_params(s, f, w, c);
    /* render_size */
    w1(w, f->render);
    if (f->render) { wf(w, 16, f->rw - 1); wf(w, 16, f->rh - 1); c->rw = f->rw; c->rh = f->rh; }
    else { c->rw = c->uw; c->rh = c->h; }
}

static void tile_info(const AwSeq *s, const AwFrm *f, AwBits *w, AwRef *c) {
    const int sh = s->sb128 ? 7 : 6, sbw = (c->fw + (1 << sh) - 1) >> sh, sbh = (c->h + (1 << sh) - 1) >> sh;
    const int maxw = 4096 >> sh, area = (4096 * 2304) >> (2 * sh);
    c->min_log2c = tlog2(maxw, sbw);
    c->max_log2c = tlog2(1, imin_(sbw, 64)); c->max_log2r = tlog2(1, imin_(sbh, 64));
    const int min_tiles = imax_(c->min_log2c, tlog2(area, sbw * sbh));
    w1(w, f->uniform);
    if (f->uniform) {
        c->log2c = imin_(imax_(f->log2c, c->min_log2c), c->max_log2c);
        for (int k = c->min_log2c; k < c->max_log2c; k++) { w1(w, k < c->log2c); if (k >= c->log2c) break; }
        const int tw = (sbw + (1 << c->log2c) - 1) >> c->log2c;
        c->cols = 0;
        for (int x = 0; x < sbw; x += tw) c->col_sb[c->cols++] = x;
        c->min_log2r = imax_(min_tiles - c->log2c, 0);
        c->log2r = imin_(imax_(f->log2r, c->min_log2r), c->max_log2r);
        for (int k = c->min_log2r; k < c->max_log2r; k++) { w1(w, k < c->log2r); if (k >= c->log2r) break; }
        const int th = (sbh + (1 << c->log2r) - 1) >> c->log2r;
        c->rows = 0;
        for (int y = 0; y < sbh; y += th) c->row_sb[c->rows++] = y;
    } else {
        int widest = 0, x = 0, y = 0, i = 0;
        c->min_log2r = 0;
        for (i = 0; x < sbw && i < 64; i++) {
            const int m = imin_(sbw - x, maxw);
            int tw = i < f->nc ? f->colw[i] : 1; if (tw < 1) tw = 1; if (tw > m) tw = m;
            wns(w, m, tw - 1);
            c->col_sb[i] = x; x += tw; widest = imax_(widest, tw);
        }
        c->cols = i; c->log2c = tlog2(1, c->cols);
        int marea = sbw * sbh; if (min_tiles > 0) marea >>= min_tiles + 1;
        const int maxh = imax_(marea / widest, 1);
        for (i = 0; y < sbh && i < 64; i++) {
            const int m = imin_(sbh - y, maxh);
            int th = i < f->nr ? f->rowh[i] : 1; if (th < 1) th = 1; if (th > m) th = m;
            wns(w, m, th - 1);
            c->row_sb[i] = y; y += th;
        }
        c->rows = i; c->log2r = tlog2(1, c->rows);
    }
    c->col_sb[c->cols] = sbw; c->row_sb[c->rows] = sbh;
    if (c->log2c || c->log2r) { wf(w, c->log2c + c->log2r, f->ctx_tile); wf(w, 2, f->size_bytes - 1); }
}

static void dq1(AwBits *w, int v) { w1(w, v != 0); if (v) wsu(w, 7, v); }

static void hdr_bits(AwEnc *e, const AwFrm *f, AwBits *w) {
    const AwSeq *s = &e->seq;
    AwRef *c = &e->cur;
    memset(c, 0, sizeof(*c));
    c->f = *f; c->valid = 1;
    c->bitdepth = 8 + 2 * s->hbd; c->mono = s->profile != 1 && s->mono; c->ssx = seq_ssx(s); c->ssy = seq_ssy(s);
    const int planes3 = !c->mono;
    const int red = s->reduced;
    const int dm = s->timing && s->dec_model;
    if (!red) w1(w, f->show_existing);
    if (f->show_existing) {
        wf(w, 3, f->existing_idx);
        if (dm && !s->equal_pic) wf(w, s->pres_len, f->pres_delay);
        if (s->frame_ids) wf(w, s->id_len, e->ref[f->existing_idx].f.frame_id);
        return;
    }
    const int type = red ? 0 : f->type, show = red ? 1 : f->show;
    const int intra = type == 0 || type == 2;
    if (!red) {
        wf(w, 2, type); w1(w, show);
        if (show && dm && !s->equal_pic) wf(w, s->pres_len, f->pres_delay);
        if (!show) w1(w, f->showable);
        if (!(type == 3 || (type == 0 && show))) w1(w, f->err_res);
    }
    c->showable = show ? type != 0 : f->showable;
    c->err_res = red || type == 3 || (type == 0 && show) || f->err_res;
    w1(w, f->disable_cdf_update);
    const int sct = red ? 2 : s->sct, fimv = red || !s->sct ? 2 : s->fimv;
    if (sct == 2) { w1(w, f->allow_sct); c->allow_sct = f->allow_sct; } else c->allow_sct = sct;
    if (c->allow_sct) { if (fimv == 2) { w1(w, f->force_int_mv); c->force_int_mv = f->force_int_mv; } else c->force_int_mv = fimv; }
    if (intra) c->force_int_mv = 1;
    if (s->frame_ids && !red) wf(w, s->id_len, f->frame_id);
    const int override = red ? 0 : type == 3 ? 1 : f->size_override;
    if (!red && type != 3) w1(w, f->size_override);
    const int oh = s->order_hint && !red;
    if (oh) wf(w, s->oh_bits, f->order_hint);
    c->primary = 7;
    if (!intra && !c->err_res) { wf(w, 3, f->primary); c->primary = f->primary; }
    if (dm && !red) {
        w1(w, f->brt_present);
        if (f->brt_present) for (int i = 0; i < s->n_op; i++) if (s->op[i].dm_present) {
            const int idc = s->op[i].idc;
            if (!idc || ((idc >> f->tid & 1) && (idc >> (f->sid + 8) & 1))) wf(w, s->rem_len, f->brt[i]);
        }
    }
    c->refresh = f->refresh;
    if (type == 3 || (type == 0 && show)) c->refresh = 0xff; else wf(w, 8, f->refresh);
    if ((!intra || c->refresh != 0xff) && c->err_res && oh)
        for (int i = 0; i < 8; i++) wf(w, s->oh_bits, e->ref[i].valid ? e->ref[i].f.order_hint : 0);
    if (intra) {
        frame_size(s, f, w, c, override);
        if (c->allow_sct && c->uw == c->fw) { w1(w, f->intrabc); c->intrabc = f->intrabc; }
    } else {
        int shortsig = 0;
        if (oh) { w1(w, f->short_sig); shortsig = f->short_sig; }
        if (shortsig) { wf(w, 3, f->refidx[0]); wf(w, 3, f->refidx[3]); set_frame_refs(e, f, f->refidx[0], f->refidx[3], c->refidx); }
        else for (int i = 0; i < 7; i++) c->refidx[i] = f->refidx[i];
        for (int i = 0; i < 7; i++) {
            if (!shortsig) wf(w, 3, f->refidx[i]);
            if (s->frame_ids) {
                const uint32_t m = (1u << s->id_len) - 1;
                const uint32_t d = (f->frame_id - e->ref[c->refidx[i]].f.frame_id) & m;
                wf(w, s->delta_id_len, d - 1);
            }
        }
        int found = -1;
        if (override && !c->err_res) {
            found = f->found_ref;
            for (int i = 0; i < 7; i++) { w1(w, i == found); if (i == found) break; }
        }
        if (found >= 0) {
            const AwRef *r = &e->ref[c->refidx[found]];
            c->uw = r->uw; c->h = r->h; c->rw = r->rw; c->rh = r->rh;
            superres_params(s, f, w, c);
        } else frame_size(s, f, w, c, override);
        if (!c->force_int_mv) { w1(w, f->hp); c->hp = f->hp; }
        w1(w, f->filter == 4); if (f->filter != 4) wf(w, 2, f->filter);
        w1(w, f->sw_motion);
        if (!c->err_res && s->refmvs && oh) { w1(w, f->use_refmvs); c->use_refmvs = f->use_refmvs; }
    }
    if (!red && !f->disable_cdf_update) { w1(w, f->no_end_update); c->refresh_ctx = !f->no_end_update; }
    tile_info(s, f, w, c);
    /* quantization */
    int udc = 0, uac = 0, vdc = 0, vac = 0;
    wf(w, 8, f->yac); dq1(w, f->ydc);
    if (planes3) {
        int diff = 0;
        if (s->sep_uv) { w1(w, f->diff_uv); diff = f->diff_uv; }
        dq1(w, udc = f->udc); dq1(w, uac = f->uac);
        if (diff) { dq1(w, vdc = f->vdc); dq1(w, vac = f->vac); } else { vdc = udc; vac = uac; }
    }
    c->f.udc = udc; c->f.uac = uac; c->f.vdc = vdc; c->f.vac = vac;
    w1(w, f->qm);
    if (f->qm) { wf(w, 4, f->qmy); wf(w, 4, f->qmu); if (planes3 && s->sep_uv) wf(w, 4, f->qmv); else c->f.qmv = f->qmu; }
    /* segmentation */
    w1(w, f->seg);
    c->last_active = 0;
    if (f->seg) {
        static const int bits[8] = { 8, 6, 6, 6, 6, 3, 0, 0 }, sgn[8] = { 1, 1, 1, 1, 1, 0, 0, 0 };
        int data = 1;
        if (c->primary != 7) {
            w1(w, f->seg_map);
            if (f->seg_map) w1(w, f->seg_temporal);
            w1(w, f->seg_data); data = f->seg_data;
        } else { c->f.seg_map = 1; c->f.seg_temporal = 0; c->f.seg_data = 1; }
        if (!c->f.seg_map) c->f.seg_temporal = 0;
        if (data) {
            c->last_active = -1;
            for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
                const int en = f->seg_en[i] >> j & 1;
                w1(w, en);
                if (en) {
                    c->seg_en_m[i] |= 1 << j; c->last_active = i; if (j >= 5) c->preskip = 1;
                    if (sgn[j]) wsu(w, 1 + bits[j], f->seg_val[i][j]);
                    else if (bits[j]) wf(w, bits[j], f->seg_val[i][j]);
                    c->seg_val[i][j] = bits[j] ? f->seg_val[i][j] : 0;
                }
            }
        } else {
            const AwRef *r = &e->ref[c->refidx[c->primary]];
            memcpy(c->seg_en_m, r->seg_en_m, sizeof(c->seg_en_m));
            memcpy(c->seg_val, r->seg_val, sizeof(c->seg_val));
            c->preskip = r->preskip; c->last_active = r->last_active;
        }
    }
    /* delta q / lf */
    if (f->yac > 0) { w1(w, f->dq); c->dq = f->dq; }
    if (c->dq) {
        wf(w, 2, f->dq_res);
        if (!c->intrabc) { w1(w, f->dlf); c->dlf = f->dlf; }
        if (c->dlf) { wf(w, 2, f->dlf_res); w1(w, f->dlf_multi); }
    }
    c->all_lossless = 1;
    for (int i = 0; i < 8; i++) {
        int q = f->yac;
        if (f->seg && (c->seg_en_m[i] & 1)) q = imin_(255, imax_(0, q + c->seg_val[i][0]));
        c->qidx[i] = q;
        c->lossless[i] = q == 0 && !f->ydc && !udc && !uac && !vdc && !vac;
        c->all_lossless &= c->lossless[i];
    }
    /* loop filter */
    const AwRef *pr = c->primary != 7 ? &e->ref[c->refidx[c->primary]] : NULL;
    if (c->all_lossless || c->intrabc) {
        for (int i = 0; i < 8; i++) c->lf_ref[i] = lf_ref_default[i];
    } else {
        for (int i = 0; i < 8; i++) c->lf_ref[i] = pr ? pr->lf_ref[i] : lf_ref_default[i];
        for (int i = 0; i < 2; i++) c->lf_mode[i] = pr ? pr->lf_mode[i] : 0;
        wf(w, 6, c->lf_y0 = f->lf_y0); wf(w, 6, c->lf_y1 = f->lf_y1);
        if (planes3 && (f->lf_y0 || f->lf_y1)) { wf(w, 6, c->lf_u = f->lf_u); wf(w, 6, c->lf_v = f->lf_v); }
        wf(w, 3, c->lf_sharp = f->lf_sharp);
        w1(w, f->lf_de);
        if (f->lf_de) {
            w1(w, f->lf_du);
            if (f->lf_du) {
                for (int i = 0; i < 8; i++) { const int u = f->lf_rmask >> i & 1; w1(w, u); if (u) { wsu(w, 7, f->lf_r[i]); c->lf_ref[i] = f->lf_r[i]; } }
                for (int i = 0; i < 2; i++) { const int u = f->lf_mmask >> i & 1; w1(w, u); if (u) { wsu(w, 7, f->lf_m[i]); c->lf_mode[i] = f->lf_m[i]; } }
            }
        }
    }
    /* cdef */
    if (!c->all_lossless && !c->intrabc && s->cdef) {
        wf(w, 2, f->cdef_damp - 3 < 0 ? 0 : f->cdef_damp - 3); wf(w, 2, f->cdef_bits);
        c->cdef_damp = f->cdef_damp < 3 ? 3 : f->cdef_damp; c->cdef_bits = f->cdef_bits;
        for (int i = 0; i < 1 << f->cdef_bits; i++) {
            wf(w, 6, c->cdef_y[i] = f->cdef_y[i]);
            if (planes3) wf(w, 6, c->cdef_uv[i] = f->cdef_uv[i]);
        }
    }
    /* restoration */
    const int all_ll = c->all_lossless && c->fw == c->uw;
    if (!all_ll && !c->intrabc && s->lr) {
        int any = 0, anyc = 0;
        for (int p = 0; p < (planes3 ? 3 : 1); p++) { wf(w, 2, f->lr[p]); c->lr_type[p] = f->lr[p]; if (f->lr[p]) { any = 1; if (p) anyc = 1; } }
        if (any) {
            int sh = 0;
            if (s->sb128) { w1(w, f->lr_shift); sh = f->lr_shift + 1; }
            else { w1(w, f->lr_shift); sh = f->lr_shift; if (f->lr_shift) { w1(w, f->lr_extra); sh += f->lr_extra; } }
            int uvs = 0;
            if (c->ssx && c->ssy && anyc) { w1(w, f->lr_uv); uvs = f->lr_uv; }
            c->lr_log2[0] = 6 + sh; c->lr_log2[1] = c->lr_log2[0] - uvs;
        }
    }
    if (!c->all_lossless) w1(w, f->tx_select);
    if (!intra) w1(w, f->comp);
    /* skip mode */
    if (!intra && f->comp && oh) {
        int fi = -1, bi = -1, fh = 0, bh = 0;
        for (int i = 0; i < 7; i++) {
            const int h = e->ref[c->refidx[i]].f.order_hint, d = rel_dist(s, h, f->order_hint);
            if (d < 0) { if (fi < 0 || rel_dist(s, h, fh) > 0) { fi = i; fh = h; } }
            else if (d > 0) { if (bi < 0 || rel_dist(s, h, bh) < 0) { bi = i; bh = h; } }
        }
        if (fi >= 0 && bi >= 0) { c->skip_allowed = 1; c->skip_ref[0] = imin_(fi, bi); c->skip_ref[1] = imax_(fi, bi); }
        else if (fi >= 0) {
            int si = -1, sh = 0;
            for (int i = 0; i < 7; i++) {
                const int h = e->ref[c->refidx[i]].f.order_hint;
                if (rel_dist(s, h, fh) < 0 && (si < 0 || rel_dist(s, h, sh) > 0)) { si = i; sh = h; }
            }
            if (si >= 0) { c->skip_allowed = 1; c->skip_ref[0] = imin_(fi, si); c->skip_ref[1] = imax_(fi, si); }
        }
    }
    if (c->skip_allowed) w1(w, f->skip_mode);
    if (!intra && !c->err_res && s->warped && !red) { w1(w, f->warp); c->warp = f->warp; }
    w1(w, f->reduced_tx);
    /* global motion */
    for (int i = 0; i < 7; i++) for (int j = 0; j < 6; j++) c->gm[i][j] = gm_default[j];
    if (!intra) for (int i = 0; i < 7; i++) {
        const int t = f->gm_type[i];
        c->gm_type[i] = t;
        w1(w, t != 0);
        if (!t) continue;
        w1(w, t == 2); if (t != 2) w1(w, t == 1);
        const int32_t *prev = pr ? pr->gm[i] : gm_default;
        int32_t *o = c->gm[i];
        int order[6], n = 0;
        if (t >= 2) { order[n++] = 2; order[n++] = 3; }
        if (t == 3) { order[n++] = 4; order[n++] = 5; }
        order[n++] = 0; order[n++] = 1;
        for (int k = 0; k < n; k++) {
            const int idx = order[k];
            int abits = 12, prec = 15;
            if (idx < 2) { if (t == 1) { abits = 9 - !c->hp; prec = 3 - !c->hp; } else { abits = 12; prec = 6; } }
            const int pd = 16 - prec, round = idx % 3 == 2 ? 1 << 16 : 0, sub = idx % 3 == 2 ? 1 << prec : 0, mx = 1 << abits;
            const int r = (prev[idx] >> pd) - sub;
            int v = (f->gm[i][idx] - round) >> pd;
            if (v > mx) v = mx;
            if (v < -mx) v = -mx;
            wsigned_subexp(w, -mx, mx + 1, r, v);
            o[idx] = v * (1 << pd) + round;
        }
        if (t == 2) { o[4] = -o[3]; o[5] = o[2]; }
    }
    grain_bits(s, f, &f->fg, w, c, e);
    c->showable_now = c->showable;
}

void aw_derive(AwEnc *e, const AwFrm *f) {
    AwBits w; memset(&w, 0, sizeof(w));
    hdr_bits(e, f, &w);
    awb_free(&w.b);
}
int aw_n_tiles(const AwEnc *e) { return e->cur.cols * e->cur.rows; }

static void tile_group(const AwEnc *e, AwBits *w, int a, int b, const AwTile *t) {
    const AwRef *c = &e->cur;
    const int n = c->cols * c->rows;
    if (n > 1) {
        const int present = !(a == 0 && b == n - 1);
        w1(w, present);
        if (present) { wf(w, c->log2c + c->log2r, a); wf(w, c->log2c + c->log2r, b); }
    }
    walign(w);
    for (int i = a; i <= b; i++) {
        if (i != b) {
            const size_t sz = t[i].n - 1;
            for (int k = 0; k < c->f.size_bytes; k++) awb_u8(&w->b, (unsigned)(sz >> (8 * k)) & 0xff);
        }
        awb_put(&w->b, t[i].p, t[i].n);
    }
}

static void update_refs(AwEnc *e) {
    for (int i = 0; i < 8; i++) if (e->cur.refresh >> i & 1) e->ref[i] = e->cur;
}

void aw_put_frame(AwEnc *e, const AwFrm *f, const AwTile *tiles, AwBuf *out, int mode) {
    AwBits w; memset(&w, 0, sizeof(w));
    hdr_bits(e, f, &w);
    const int n = e->cur.cols * e->cur.rows;
    const int ns = !!(mode & AW_NOSIZE);
    if (mode & AW_SPLIT) {
        wtrail(&w);
        aw_obu(out, 3, f->has_ext, f->tid, f->sid, 1, w.b.p, w.b.n);
        if (mode & AW_REDUND) aw_obu(out, 7, f->has_ext, f->tid, f->sid, 1, w.b.p, w.b.n);
        AwBuf hdr = { 0 }; awb_put(&hdr, w.b.p, w.b.n);
        if (mode & AW_TG1) {
            for (int i = 0; i < n; i++) {
                AwBits t; memset(&t, 0, sizeof(t));
                tile_group(e, &t, i, i, tiles);
                aw_obu(out, 4, f->has_ext, f->tid, f->sid, !(ns && i == n - 1), t.b.p, t.b.n);
                awb_free(&t.b);
                if ((mode & AW_REDUND) && i < n - 1) aw_obu(out, 7, f->has_ext, f->tid, f->sid, 1, hdr.p, hdr.n);
            }
        } else {
            AwBits t; memset(&t, 0, sizeof(t));
            tile_group(e, &t, 0, n - 1, tiles);
            aw_obu(out, 4, f->has_ext, f->tid, f->sid, !ns, t.b.p, t.b.n);
            awb_free(&t.b);
        }
        awb_free(&hdr);
    } else {
        walign(&w);
        tile_group(e, &w, 0, n - 1, tiles);
        aw_obu(out, 6, f->has_ext, f->tid, f->sid, !ns, w.b.p, w.b.n);
    }
    awb_free(&w.b);
    if (!(mode & AW_NOUPDATE)) update_refs(e);
}

void aw_put_show_existing(AwEnc *e, int idx, AwBuf *out) {
    AwFrm f; memset(&f, 0, sizeof(f));
    f.show_existing = 1; f.existing_idx = idx;
    AwBits w; memset(&w, 0, sizeof(w));
    hdr_bits(e, &f, &w);
    wtrail(&w);
    aw_obu(out, 3, 0, 0, 0, 1, w.b.p, w.b.n);
    awb_free(&w.b);
    if (e->ref[idx].valid && e->ref[idx].f.type == 0) {
        AwRef r = e->ref[idx];
        r.showable_now = 0;
        for (int i = 0; i < 8; i++) e->ref[i] = r;
    }
}

/* --------------------------------------------------------------- metadata */
void aw_put_cll(AwBuf *o, int a, int b) {
    uint8_t p[6] = { 1, (uint8_t)(a >> 8), (uint8_t)a, (uint8_t)(b >> 8), (uint8_t)b, 0x80 };
    aw_obu(o, 5, 0, 0, 0, 1, p, 6);
}
void aw_put_mdcv(AwBuf *o, const uint16_t prim[3][2], const uint16_t wp[2], uint32_t mx, uint32_t mn) {
    AwBits w; memset(&w, 0, sizeof(w));
    wf(&w, 8, 2);
    for (int i = 0; i < 3; i++) { wf(&w, 16, prim[i][0]); wf(&w, 16, prim[i][1]); }
    wf(&w, 16, wp[0]); wf(&w, 16, wp[1]); wf(&w, 32, mx); wf(&w, 32, mn);
    wtrail(&w);
    aw_obu(o, 5, 0, 0, 0, 1, w.b.p, w.b.n);
    awb_free(&w.b);
}
void aw_put_t35(AwBuf *o, int cc, int ccext, const uint8_t *p, size_t n) {
    AwBuf b = { 0 };
    awb_u8(&b, 4); awb_u8(&b, cc);
    if (cc == 0xff) awb_u8(&b, ccext);
    awb_put(&b, p, n);
    awb_u8(&b, 0x80);
    aw_obu(o, 5, 0, 0, 0, 1, b.p, b.n);
    awb_free(&b);
}

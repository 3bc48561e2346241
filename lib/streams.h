/* Named valid streams shared by the schedule-exploring and sequential harnesses. */
#ifndef STREAMS_H
#define STREAMS_H
#include "scen.h"

/* frame index whose tile payload is far too short (decoding it must fail), or -1 */
static int g_short_frame = -1, g_frame_no;
static int payload_len(const AwFrm *f, int w, int h) { (void)f; if (g_frame_no++ == g_short_frame) return 3; int n = w * h * 3; if (n < 900) n = 900; if (n > 16000) n = 16000; return n; }
static void st_frame(AwEnc *e, AwFrm *f, Pkts *k, AwBuf *b, uint64_t seed, int first, int mode) {
    b->n = 0;
    aw_put_td(b);
    if (first) aw_put_seq(e, b);
    put_frame(e, f, b, seed, payload_len(f, f->w, f->h), mode);
    pk_add(k, b);
}
static void st_grain(AwFrm *f, unsigned seed) {
    f->fg.apply = 1; f->fg.seed = seed; f->fg.update = 1;
    f->fg.ny = 2; f->fg.y[0][0] = 0; f->fg.y[0][1] = 60; f->fg.y[1][0] = 255; f->fg.y[1][1] = 120;
    f->fg.nuv[0] = f->fg.nuv[1] = 1; f->fg.uv[0][0][0] = 128; f->fg.uv[0][0][1] = 70; f->fg.uv[1][0][0] = 100; f->fg.uv[1][0][1] = 80;
    f->fg.scaling_m8 = 2; f->fg.lag = 1; f->fg.ar_shift_m6 = 1;
    for (int i = 0; i < 24; i++) f->fg.ar_y[i] = 128 + (i * 7) % 11 - 5;
    for (int p = 0; p < 2; p++) for (int i = 0; i < 25; i++) f->fg.ar_uv[p][i] = 128 + (i * 5) % 9 - 4;
    for (int p = 0; p < 2; p++) { f->fg.cb_mult[p] = 128; f->fg.cb_luma[p] = 192; f->fg.cb_off[p] = 256; }
    f->fg.overlap = 1;
}

enum { ST_BASIC, ST_REF, ST_TILES, ST_SHOWEX, ST_MISC, ST_LR, ST_GRAIN, ST_HBD, ST_SEG, ST_SCALED, ST_TILEROWS, ST_ONEROW, ST_SVC, ST_NOLF, ST_LRONLY, ST_SUPERRES, ST_INTRABC, ST_GM, ST_ODD10, ST_MONO, ST_SB128, ST_SKIPMODE, ST_SEGNC, ST_REFNC, ST_WIDE, ST_GRAIN10, ST_NB };
static const char *const st_name[] = { "basic", "refmvs", "tiles", "showexisting", "misc", "restoration", "grain", "hbd444", "segmentation", "scaledref", "tilerows", "onerow", "svc", "nolf", "lronly", "superres", "intrabc", "globalmotion", "odd10", "mono", "sb128", "skipmode", "segnc", "refnc", "wide", "grain10" };

/* n_frames: how many frames after the key frame */
static void st_build(int id, int n_inter, uint64_t seed, Pkts *k) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    int w = 8, h = 128;
    memset(k, 0, sizeof(*k)); g_frame_no = 0;
    switch (id) {
    case ST_TILES: w = 128; h = 128; break;
    case ST_TILEROWS: w = 8; h = 192; break;
    case ST_ONEROW: w = 16; h = 16; break;
    case ST_LR: h = 192; break;
    case ST_GRAIN: w = 32; h = 96; break;
    case ST_GRAIN10: w = 33; h = 97; break;
    case ST_SCALED: w = 16; h = 128; break;
    case ST_NOLF: case ST_LRONLY: h = 192; break;
    case ST_SUPERRES: w = 40; h = 128; break;
    case ST_INTRABC: w = 16; h = 192; break;
    case ST_WIDE: w = 64; h = 192; break;
    case ST_ODD10: w = 11; h = 133; break;
    case ST_SB128: w = 16; h = 256; break;
    }
    aw_seq_default(&e->seq, w, h);
    if (id == ST_HBD) { e->seq.profile = 1; e->seq.hbd = 1; e->seq.ssx = e->seq.ssy = 0; }
    if (id == ST_GRAIN || id == ST_GRAIN10) e->seq.fg = 1;
    if (id == ST_GRAIN10) e->seq.hbd = 1;
    if (id == ST_ODD10) e->seq.hbd = 1;
    if (id == ST_MONO) e->seq.mono = 1;
    if (id == ST_SUPERRES) e->seq.superres = 1;
    if (id == ST_SB128) e->seq.sb128 = 1;
    if (id == ST_SVC) { e->seq.n_op = 2; e->seq.op[0].idc = 0x301; e->seq.op[1].idc = 0x101; e->seq.op[0].level = e->seq.op[1].level = 0; }
    for (int i = 0; i <= n_inter; i++) {
        aw_frm_default(e, &f, i ? 1 : 0);
        int mode = 0;
        f.order_hint = i;
        if (i) {
            for (int j = 0; j < 7; j++) f.refidx[j] = 0;
            f.refresh = 1;
        }
        switch (id) {
        case ST_BASIC: case ST_ONEROW: if (i) f.primary = 0; break;
        case ST_REF:
            if (i) { f.refresh = 1 << i; f.primary = 0; f.use_refmvs = 1; f.comp = 1;
                for (int j = 0; j < 7; j++) f.refidx[j] = (j * 3) % i == 0 ? i - 1 : 0; }
            break;
        case ST_REFNC:
            f.no_end_update = i & 1;
            if (i) { f.refresh = 1 << i; f.use_refmvs = 1; f.comp = 1; for (int j = 0; j < 7; j++) f.refidx[j] = j & 1 ? i - 1 : 0; }
            break;
        case ST_WIDE: f.lr[0] = 2; f.lr[1] = 1; if (i) { f.primary = 0; f.use_refmvs = 1; } break;
        case ST_TILES: f.log2c = 1; f.ctx_tile = 1; f.log2r = 1; if (i) f.primary = 0; mode = i & 1 ? AW_SPLIT | AW_TG1 : 0; break;
        case ST_TILEROWS: f.log2r = 1; f.ctx_tile = i & 1; if (i) f.primary = 0; break;
        case ST_SHOWEX:
            if (i & 1) { f.show = 0; f.refresh = 2; f.order_hint = i + 1; if (i) f.primary = 0; }
            else if (i) { f.refresh = 4; f.refidx[6] = 1; f.comp = 1; f.order_hint = i - 1; }
            break;
        case ST_MISC:
            if (i & 1) { f.disable_cdf_update = 1; f.lf_y0 = f.lf_y1 = 0; f.cdef_y[0] = f.cdef_uv[0] = 0; }
            else if (i) { f.no_end_update = 1; f.primary = 0; f.type = 2; f.refresh = 2; f.allow_sct = 1; }
            break;
        case ST_LR: f.lr[0] = 1 + i % 3; f.lr[1] = 2; f.lr[2] = 3; f.lr_shift = 0; if (i) f.primary = 0; break;
        case ST_GRAIN: st_grain(&f, 1234 + i * 77); if (i) f.primary = 0; break;
        case ST_GRAIN10: /* grain only in some planes, inherited parameters, frames without grain */
            st_grain(&f, 99 + i); f.fg.lag = 3; f.fg.clip = 1;
            if (i % 3 == 1) { f.fg.ny = 0; f.fg.cfl = 0; f.fg.nuv[0] = f.fg.nuv[1] = 0; f.fg.apply = 0; }
            else if (i) { f.fg.cfl = 1; f.fg.nuv[0] = f.fg.nuv[1] = 0; f.fg.overlap = 0; }
            break;
        case ST_HBD: f.lr[0] = 2; f.qm = 1; f.qmy = 3; f.qmu = 5; f.qmv = 7; if (i) f.primary = 0; break;
        case ST_SEGNC: f.no_end_update = 1; /* fallthrough */
        case ST_SEG:
            f.seg = 1; f.seg_map = 1; f.seg_data = 1; f.seg_en[1] = 1; f.seg_val[1][0] = 20; f.seg_en[3] = 1; f.seg_val[3][0] = -10;
            f.dq = 1; f.dlf = 1;
            if (i) { f.primary = 0; f.seg_temporal = i & 1; }
            break;
        case ST_SCALED:
            if (i) { f.size_override = 1; f.w = i & 1 ? 24 : 16; f.h = i & 1 ? 96 : 128; f.rw = f.w; f.rh = f.h; }
            break;
        case ST_SVC:
            break;
        case ST_NOLF: f.lf_y0 = f.lf_y1 = 0; if (i & 1) { f.lr[0] = 2; f.lr[1] = 1; } if (i) f.primary = 0; break;
        case ST_LRONLY: f.lf_y0 = f.lf_y1 = 0; f.cdef_y[0] = f.cdef_uv[0] = 0; f.lr[0] = 2; f.lr[1] = 3; if (i) f.primary = 0; break;
        case ST_SUPERRES: f.sr = 1; f.denom = 9 + (i * 3) % 8; f.lr[0] = 1 + i % 3; f.lr[2] = 2; if (i & 1) f.cdef_uv[0] = f.cdef_y[0] = 0x2e; break;
        case ST_INTRABC:
            f.allow_sct = 1;
            if (!(i & 1)) { f.intrabc = 1; if (i) { f.type = 2; f.refresh = 2; } f.lf_y0 = f.lf_y1 = f.lf_u = f.lf_v = 0; f.lf_de = 0; }
            break;
        case ST_GM:
            if (i) { f.primary = 0; f.gm_type[0] = 1; f.gm[0][0] = 3 << 13; f.gm[0][1] = -(5 << 13); f.gm_type[1] = 2; f.gm[1][2] = (1 << 16) + 700; f.gm[1][3] = 300; f.gm[1][4] = -300; f.gm[1][5] = (1 << 16) + 700; f.comp = 1; }
            break;
        case ST_ODD10: f.lr[0] = 1; f.lr[1] = 2; if (i) f.primary = 0; break;
        case ST_MONO: f.lr[0] = 2; if (i) f.primary = 0; break;
        case ST_SB128: f.lr[0] = 2; f.cdef_bits = 1; f.cdef_y[1] = 0x21; f.cdef_uv[1] = 5; if (i) { f.primary = 0; f.use_refmvs = 1; } break;
        case ST_SKIPMODE:
            if (i == 1) { f.show = 0; f.refresh = 2; f.order_hint = n_inter + 1; }
            else if (i) { f.comp = 1; f.skip_mode = 1; f.refidx[6] = 1; f.order_hint = i - 1; f.primary = 0; f.use_refmvs = 1; }
            break;
        }
        if (id == ST_SVC) {
            b.n = 0; aw_put_td(&b); if (!i) aw_put_seq(e, &b);
            for (int l = 0; l < 2; l++) {
                aw_frm_default(e, &f, i || l ? 1 : 0);
                f.has_ext = 1; f.sid = l; f.order_hint = i;
                if (i || l) { f.refresh = 1 << l; f.err_res = 0; for (int j = 0; j < 7; j++) f.refidx[j] = l ? 0 : 0; }
                put_frame(e, &f, &b, seed * 131 + i * 2 + l, payload_len(&f, w, h), 0);
            }
            pk_add(k, &b);
        } else st_frame(e, &f, k, &b, seed * 131 + i, i == 0, mode);
        if (id == ST_SHOWEX && i && !(i & 1)) { b.n = 0; aw_put_td(&b); aw_put_show_existing(e, 1, &b); pk_add(k, &b); }
    }
    free(e); awb_free(&b);
}
#endif

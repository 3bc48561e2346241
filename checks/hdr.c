/* S12: every value of every header syntax element, and pairs of elements,
 * coded by the writer and compared with what the decoder reports.
 *   PART 1: sequence headers   PART 2: frame headers   PART 3: rejections */
#include "streams.h"
#include "enumh.h"
#include "hdrcmp.h"

static AwBuf B, P;
static Dav1dContext *g_c;
static int g_undelivered;

#if PART == 1
static int parse_bytes(const AwBuf *b, Dav1dSequenceHeader *h) { memset(h, 0xa5, sizeof(*h)); return dav1d_parse_sequence_header(h, b->p, b->n); }
static void one_seq(const AwSeq *s, const char *what) {
    B.n = P.n = 0; Dav1dSequenceHeader h;
    aw_seq_payload(s, &P); aw_obu(&B, 1, 0, 0, 0, 1, P.p, P.n);
    en_evals++;
    const int r = parse_bytes(&B, &h);
    if (r) { en_viol_("%s: a valid sequence header is refused (%d)", what, r); return; }
    if (seq_cmp(&h, s)) en_viol_("%s: %s", what, hc_msg);
    en_nontrivial++;
}
/* decode the sequence header together with a key frame; compare both reports */
static int decode_seq(const AwBuf *sh, const AwSeq *s, Dav1dSequenceHeader *out, int *accepted) {
    AwEnc *e = calloc(1, sizeof(*e)); e->seq = *s; AwFrm f; AwBuf b = { 0 };
    Dav1dSettings st; dec_settings(&st, 1, 1); Dav1dContext *c; int got = 0;
    for (int t = 0; t < 6 && !got; t++) {
        if (dav1d_open(&c, &st)) exit(2);
        Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, sh->p, sh->n, dec_free_none, NULL);
        *accepted = dav1d_send_data(c, &d) == 0; dav1d_data_unref(&d);
        b.n = 0; aw_frm_default(e, &f, 0); f.order_hint = 0; f.frame_id = 1;
        put_frame(e, &f, &b, en_seed * 31 + t, 3000, 0);
        memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, b.p, b.n, dec_free_none, NULL); dav1d_send_data(c, &d); dav1d_data_unref(&d);
        Dav1dPicture p; memset(&p, 0, sizeof(p));
        if (!dav1d_get_picture(c, &p)) { *out = *p.seq_hdr; got = 1; dav1d_picture_unref(&p); }
        dav1d_close(&c);
    }
    free(e); awb_free(&b);
    return got;
}
static void both(const AwSeq *s, const char *what) {
    one_seq(s, what);
    Dav1dSequenceHeader h, d; int acc; parse_bytes(&B, &h);
    if (s->w > 64 || s->h > 64) return;
    AwBuf sh = { 0 }; awb_put(&sh, B.p, B.n); en_evals++;
    if (!decode_seq(&sh, s, &d, &acc)) { if (!acc) en_viol_("%s: the decoder refuses the sequence header", what); g_undelivered++; }
    else { if (seq_cmp(&d, s)) en_viol_("%s: decoder: %s", what, hc_msg); if (memcmp(&h, &d, sizeof(h))) en_viol_("%s: the stand-alone parser and the decoder report different headers", what); }
    awb_free(&sh);
}
static void seq_cases(void) {
    AwSeq d; aw_seq_default(&d, 16, 16); d.op[0].level = 0;
    static const int cd[4][3] = { { 2, 2, 2 }, { 1, 13, 0 }, { 1, 13, 1 }, { 9, 16, 9 } };
    char w[200];
    if (en_begin("seq:colour"))
        for (int prof = 0; prof < 3; prof++) for (int hbd = 0; hbd < (prof == 2 ? 3 : 2); hbd++) for (int mono = 0; mono < (prof == 1 ? 1 : 2); mono++)
        for (int c = 0; c < 5; c++) for (int rg = 0; rg < 2; rg++) for (int ss = 0; ss < 3; ss++) for (int chr = 0; chr < 3; chr++) for (int uv = 0; uv < 2; uv++) for (int fg = 0; fg < 2; fg++) for (int red = 0; red < 2; red++) {
            AwSeq s = d; s.profile = prof; s.hbd = hbd; s.mono = mono; s.cdesc = c > 0; if (c) { s.pri = cd[c - 1][0]; s.trc = cd[c - 1][1]; s.mtx = cd[c - 1][2]; }
            s.range = rg; s.ssx = ss < 2; s.ssy = ss < 1; s.chr = chr; s.sep_uv = uv; s.fg = fg; s.still = s.reduced = red;
            if (c == 2 && !mono && !(prof == 1 || (prof == 2 && hbd == 2))) continue; /* sRGB needs 4:4:4 */
            snprintf(w, sizeof(w), "profile %d hbd %d mono %d colour %d range %d ss %d chr %d uv %d fg %d reduced %d", prof, hbd, mono, c, rg, ss, chr, uv, fg, red);
            one_seq(&s, w);
        }
    for (int blk = 0; blk < 64; blk++) if (en_begin("seq:tools:%d", blk))
        for (int m = blk << (en_quick ? 5 : 7); m < (blk + 1) << (en_quick ? 5 : 7); m++) for (int sct = 0; sct < 3; sct++) for (int fi = 0; fi < (sct ? 3 : 1); fi++) for (int ob = 1; ob <= 8; ob += en_quick ? 3 : 1) {
            AwSeq s = d; const int q = en_quick ? m << 2 | (m & 3) : m;
            s.sb128 = q & 1; s.filter_intra = q >> 1 & 1; s.intra_edge = q >> 2 & 1; s.interintra = q >> 3 & 1; s.masked = q >> 4 & 1; s.warped = q >> 5 & 1; s.dual = q >> 6 & 1;
            s.order_hint = q >> 7 & 1; s.jnt = q >> 8 & 1; s.refmvs = q >> 9 & 1; s.superres = q >> 10 & 1; s.cdef = q >> 11 & 1; s.lr = q >> 12 & 1;
            s.sct = sct; s.fimv = fi; s.oh_bits = ob;
            snprintf(w, sizeof(w), "tools %x sct %d fimv %d order bits %d", q, sct, fi, ob); one_seq(&s, w);
        }
    if (en_begin("seq:sizes")) for (int wb = 1; wb <= 16; wb++) for (int hb = 1; hb <= 16; hb++) for (int k = 0; k < 9; k++) {
        AwSeq s = d; s.wbits = wb; s.hbits = hb; const int ws[3] = { 1, 1 << wb, (1 << wb) / 2 + 1 }, hs[3] = { 1, 1 << hb, (1 << hb) / 2 + 1 };
        s.w = ws[k % 3]; s.h = hs[k / 3]; snprintf(w, sizeof(w), "size %dx%d in %d/%d bits", s.w, s.h, wb, hb); one_seq(&s, w);
    }
    if (en_begin("seq:ids")) for (int dl = 2; dl <= 17; dl++) for (int x = 1; x <= 8; x++) { AwSeq s = d; s.frame_ids = 1; s.delta_id_len = dl; s.id_len = dl + x; snprintf(w, sizeof(w), "frame ids %d+%d bits", dl, x); one_seq(&s, w); }
    static const uint32_t U[] = { 1, 2, 1000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu };
    for (int part = 0; part < 8; part++) if (en_begin("seq:timing:%d", part))
        for (int eq = 0; eq < 2; eq++) for (int dm = 0; dm < 2; dm++) for (int disp = 0; disp < 2; disp++) for (int u = 0; u < 7; u++) for (int l = part * 4 + 1; l <= part * 4 + 4; l++) for (int nop = 1; nop <= 32; nop += nop < 5 ? 1 : 9) {
            AwSeq s = d; s.timing = 1; s.units_tick = U[u]; s.time_scale = U[(u + 3) % 7]; s.equal_pic = eq; s.ticks_m1 = U[u] == 0xffffffffu ? 0 : U[u]; s.dec_model = dm; s.disp_model = disp;
            s.enc_delay_len = l; s.units_dec_tick = U[(u + 1) % 7]; s.rem_len = 33 - l; s.pres_len = (l * 7) % 32 + 1; s.n_op = nop;
            for (int i = 0; i < nop; i++) {
                s.op[i].idc = i ? (0x101 << (i % 4)) : 0; s.op[i].level = (i * 5 + l) & 31; s.op[i].tier = i & 1; s.op[i].dm_present = (i ^ u) & 1;
                s.op[i].dbd = l == 32 ? U[(i + u) % 7] : (U[(i + u) % 7] & ((1u << l) - 1)); s.op[i].ebd = l == 32 ? U[(i + 2) % 7] : (U[(i + 2) % 7] & ((1u << l) - 1)); s.op[i].low = i >> 1 & 1;
                s.op[i].disp_present = (i + u) % 3 != 0; s.op[i].disp_m1 = (i * 3 + u) & 15;
            }
            snprintf(w, sizeof(w), "timing eq %d dm %d disp %d u %d len %d ops %d", eq, dm, disp, u, l, nop); one_seq(&s, w);
        }
    /* ticks per picture: every code length */
    if (en_begin("seq:ticks")) for (int k = 0; k < 32; k++) for (int j = -1; j < 2; j++) { AwSeq s = d; s.timing = s.equal_pic = 1; s.units_tick = s.time_scale = 1; const uint64_t v = (1ull << k) + j; if (v > 0xfffffffe) continue; s.ticks_m1 = (uint32_t)v; snprintf(w, sizeof(w), "ticks %u", s.ticks_m1); one_seq(&s, w); }
    if (en_begin("seq:level")) for (int red = 0; red < 2; red++) for (int l = 0; l < 32; l++) for (int t = 0; t < 2; t++) for (int idc = 0; idc < (red ? 1 : 4096); idc += l < 2 ? 1 : 97) {
        if (idc && (!(idc & 0xff) || !(idc & 0xf00))) continue;
        AwSeq s = d; s.still = s.reduced = red; s.op[0].level = l; s.op[0].tier = t; s.op[0].idc = idc; snprintf(w, sizeof(w), "reduced %d level %d tier %d idc %x", red, l, t, idc); one_seq(&s, w);
    }
    if (en_begin("seq:cicp")) for (int k = 0; k < 3; k++) for (int v = 0; v < 256; v++) { AwSeq s = d; s.cdesc = 1; s.profile = 1; s.ssx = s.ssy = 0; if (k == 0) s.pri = v; else if (k == 1) s.trc = v; else s.mtx = v; snprintf(w, sizeof(w), "cicp %d = %d", k, v); both(&s, w); }
    /* decoded together with a picture */
    for (int m = 0; m < 1 << 7; m++) if (en_begin("seq:decode:%d", m)) for (int t = 0; t < 4; t++) {
        AwSeq s = d; s.sb128 = m & 1; s.order_hint = m >> 1 & 1; s.fg = m >> 2 & 1; s.hbd = m >> 3 & 1; s.profile = m >> 4 & 1; s.cdef = m >> 5 & 1; s.still = s.reduced = m >> 6 & 1; s.op[0].level = (m * 3 + t * 7) & 31;
        if (s.profile) s.ssx = s.ssy = 0; else s.chr = t % 3;
        if (t & 1) { s.timing = 1; s.units_tick = 7; s.time_scale = 9; s.equal_pic = t >> 1; s.ticks_m1 = 5; }
        if (t & 2 && !s.reduced) { s.frame_ids = 1; s.delta_id_len = 5; s.id_len = 9; s.disp_model = 1; s.op[0].disp_present = 1; s.op[0].disp_m1 = 3; }
        s.mono = !s.profile && t == 3; s.sep_uv = t == 1 && !s.mono;
        snprintf(w, sizeof(w), "decode %x/%d", m, t); both(&s, w);
    }
    /* the stand-alone parser accepts and rejects what the decoder accepts and rejects: every bit flip and every truncation */
    for (int cfg = 0; cfg < 4; cfg++) {
        AwSeq s = d;
        if (cfg == 1) { s.timing = s.dec_model = s.disp_model = 1; s.units_tick = 1; s.time_scale = 2; s.enc_delay_len = 7; s.units_dec_tick = 3; s.rem_len = 4; s.pres_len = 9; s.n_op = 3; s.op[0].idc = 0x107; s.op[1].idc = 0x103; s.op[2].idc = 0x101; s.op[1].dm_present = 1; s.op[1].dbd = 3; }
        if (cfg == 2) { s.still = s.reduced = 1; s.profile = 1; s.cdesc = 1; s.pri = 1; s.trc = 13; s.mtx = 0; }
        if (cfg == 3) { s.frame_ids = 1; s.delta_id_len = 4; s.id_len = 8; s.profile = 2; s.hbd = 2; s.fg = 1; s.ssx = s.ssy = 1; }
        AwBuf pl = { 0 }; aw_seq_payload(&s, &pl);
        for (int x = 0; x < (int)pl.n * 8 + (int)pl.n; x++) {
            if (!en_begin("seq:damage:%d:%d", cfg, x)) continue;
            AwBuf q = { 0 }, o = { 0 }; awb_put(&q, pl.p, pl.n);
            if (x < (int)pl.n * 8) q.p[x >> 3] ^= 0x80 >> (x & 7); else q.n = x - pl.n * 8;
            aw_obu(&o, 1, 0, 0, 0, 1, q.p, q.n);
            Dav1dSequenceHeader h, dh; const int r = parse_bytes(&o, &h); int acc; en_evals++;
            const int got = decode_seq(&o, &s, &dh, &acc);
            if ((r == 0) != acc) en_viol_("stand-alone parser returns %d but the decoder %s", r, acc ? "accepts" : "rejects");
            if (got && r == 0 && memcmp(&h, &dh, sizeof(h))) en_viol_("the stand-alone parser and the decoder report different headers");
            en_nontrivial++; en_seen(r * 4 + got);
            awb_free(&q); awb_free(&o);
        }
        /* other OBUs around it, in every combination of header forms */
        for (int form = 0; form < 64; form++) {
            if (!en_begin("seq:around:%d:%d", cfg, form)) continue;
            AwBuf o = { 0 }; uint8_t pad[5] = { 1, 2, 3, 4, 0x80 };
            if (form & 1) aw_put_td(&o);
            if (form & 2) aw_obu(&o, 15, 0, 0, 0, 1, pad, 5);
            if (form & 4) aw_obu(&o, 9, 1, 3, 1, 1, pad, 3);
            aw_obu(&o, 1, form >> 3 & 1, 1, 1, !(form & 16) || (form & 32), pl.p, pl.n);
            if (form & 32) aw_obu(&o, 15, 0, 0, 0, !(form & 16), pad, 5);
            Dav1dSequenceHeader h; en_evals++; const int r = parse_bytes(&o, &h);
            if (r) en_viol_("refused (%d)", r); else if (seq_cmp(&h, &s)) en_viol_("%s", hc_msg);
            awb_free(&o);
        }
        awb_free(&pl);
    }
    if (en_begin("seq:none")) {
        Dav1dSequenceHeader h; AwBuf o = { 0 }; aw_put_td(&o); en_evals++;
        if (dav1d_parse_sequence_header(&h, o.p, o.n) != DAV1D_ERR(ENOENT)) en_viol_("no sequence header: not reported as absent");
        AwSeq s2 = d; s2.w = 8; aw_seq_payload(&d, &P); P.n = 0; aw_seq_payload(&d, &P); aw_obu(&o, 1, 0, 0, 0, 1, P.p, P.n); P.n = 0; aw_seq_payload(&s2, &P); aw_obu(&o, 1, 0, 0, 0, 1, P.p, P.n);
        if (dav1d_parse_sequence_header(&h, o.p, o.n) || h.max_width != 8) en_viol_("of two sequence headers the last one is not the one reported");
        awb_free(&o);
    }
}
#endif

#if PART >= 2
static int seq_420(const AwSeq *s) { return aw_ssx(s) && aw_ssy(s); }
/* ---- field table: apply value v of field id; 0 when v is out of range */
enum { F_NFIELDS = 78 };
static int pick(int v, int n, const int *t) { return v < n ? t[v] : -1000000; }
#define V(n) if (v >= (n)) return 0; else
#define T(...) static const int t_[] = { __VA_ARGS__ }; if (v >= (int)(sizeof(t_) / sizeof(*t_))) return 0; const int x = t_[v]; (void)pick
static int apply(int id, int v, const AwSeq *s, AwFrm *f) {
    AwGrain *g = &f->fg;
    switch (id) {
    case 0: V(2) f->disable_cdf_update = v; break;
    case 1: V(2) f->allow_sct = v; break;
    case 2: V(2) { f->allow_sct = 1; f->force_int_mv = v; } break;
    case 3: V(1 << (s->oh_bits < 6 ? s->oh_bits : 6)) f->order_hint = v; break;
    case 4: V(8) f->primary = v; break;
    case 5: V(256) f->refresh = v; break;
    case 6: { T(17, 31, 64, 63, 48, 33); f->size_override = 1; f->w = x; f->rw = x; } break;
    case 7: { T(17, 31, 64, 63, 48, 35); f->size_override = 1; f->h = x; f->rh = x; } break;
    case 8: V(9) { f->sr = v > 0; f->denom = 8 + v; } break;
    case 9: { T(1, 2, 255, 256, 65535, 65536); f->render = 1; f->rw = x; f->rh = 17; } break;
    case 10: { T(1, 2, 255, 256, 65535, 65536); f->render = 1; f->rh = x; f->rw = 19; } break;
    case 11: V(2) { f->allow_sct = 1; f->intrabc = v; } break;
    case 12: V(2) f->short_sig = v; break;
    case 13: V(64) { f->short_sig = 1; f->refidx[0] = v & 7; f->refidx[3] = v >> 3; } break;
    case 14: V(56) f->refidx[v % 7] = v / 7; break;
    case 15: V(2) { f->gm_type[0] = 1; f->gm[0][0] = 3 << 13; f->hp = v; } break;
    case 16: V(5) f->filter = v; break;
    case 17: V(2) f->sw_motion = v; break;
    case 18: V(2) f->use_refmvs = v; break;
    case 19: V(2) f->no_end_update = v; break;
    case 20: V(3) f->log2c = v; break;
    case 21: V(3) f->log2r = v; break;
    case 22: V(9) { f->uniform = 0; f->nc = 3; f->colw[0] = v % 3 + 1; f->colw[1] = v / 3 + 1; f->colw[2] = 1; } break;
    case 23: V(9) { f->uniform = 0; f->nr = 3; f->rowh[0] = v % 3 + 1; f->rowh[1] = v / 3 + 1; f->rowh[2] = 1; } break;
    case 24: V(16) { f->log2c = f->log2r = 1; f->ctx_tile = v % 4; f->size_bytes = 2 + v / 4 % 3; } break;
    case 25: V(256) f->yac = v; break;
    case 26: V(128) f->ydc = v - 64; break;
    case 27: V(128) f->udc = v - 64; break;
    case 28: V(128) f->uac = v - 64; break;
    case 29: V(128) { f->diff_uv = 1; f->vdc = v - 64; } break;
    case 30: V(128) { f->diff_uv = 1; f->vac = v - 64; } break;
    case 31: V(16) { f->qm = 1; f->qmy = v; f->qmu = 15 - v; f->qmv = v ^ 5; } break;
    case 32: V(16) { f->seg = 1; f->seg_map = v & 1; f->seg_temporal = v >> 1 & 1; f->seg_data = v >> 2 & 1; f->seg_en[1] = v >> 3 ? 1 : 0xe0; f->seg_val[1][0] = -3; f->seg_val[1][5] = 2; } break;
    case 33: V(64) { f->seg = f->seg_map = f->seg_data = 1; f->seg_en[v >> 3] = 1 << (v & 7); f->seg_val[v >> 3][v & 7] = 3; } break;
    case 34: { T(-256, -255, -1, 0, 1, 100, 255); f->seg = f->seg_map = f->seg_data = 1; f->seg_en[2] = 1; f->seg_val[2][0] = x; } break;
    case 35: V(20) { static const int y[] = { -64, -63, -1, 1, 63 }; f->seg = f->seg_map = f->seg_data = 1; f->seg_en[5] = 2 << (v / 5); f->seg_val[5][1 + v / 5] = y[v % 5]; } break;
    case 36: V(8) { f->seg = f->seg_map = f->seg_data = 1; f->seg_en[7] = 0x20; f->seg_val[7][5] = v; } break;
    case 37: V(4) { f->seg = f->seg_map = f->seg_data = 1; for (int i = 0; i < 8; i++) { f->seg_en[i] = v & 1 ? 0xff : 1; for (int j = 0; j < 8; j++) f->seg_val[i][j] = v & 2 ? i - j : 1; if (f->seg_val[i][5] < 0) f->seg_val[i][5] = 7; } } break;
    case 38: V(5) { f->dq = v > 0; f->dq_res = v ? v - 1 : 0; } break;
    case 39: V(8) { f->dq = f->dlf = 1; f->dlf_res = v & 3; f->dlf_multi = v >> 2; } break;
    case 40: V(64) f->lf_y0 = v; break;
    case 41: V(64) f->lf_y1 = v; break;
    case 42: V(64) f->lf_u = v; break;
    case 43: V(64) f->lf_v = v; break;
    case 44: V(8) f->lf_sharp = v; break;
    case 45: V(2) f->lf_de = v; break;
    case 46: V(2) { f->lf_de = 1; f->lf_du = v; } break;
    case 47: V(32) { static const int y[] = { -64, -1, 1, 63 }; f->lf_de = f->lf_du = 1; f->lf_rmask = 1 << (v & 7); f->lf_r[v & 7] = y[v >> 3]; } break;
    case 48: V(8) { static const int y[] = { -64, -1, 1, 63 }; f->lf_de = f->lf_du = 1; f->lf_mmask = 1 << (v & 1); f->lf_m[v & 1] = y[v >> 1]; } break;
    case 49: V(16) { f->cdef_damp = 3 + (v & 3); f->cdef_bits = v >> 2; for (int i = 0; i < 8; i++) { f->cdef_y[i] = (i * 9 + 1) & 63; f->cdef_uv[i] = (i * 11 + 2) & 63; } } break;
    case 50: V(64) f->cdef_y[0] = v; break;
    case 51: V(64) f->cdef_uv[0] = v; break;
    case 52: V(64) { f->lr[0] = v & 3; f->lr[1] = v >> 2 & 3; f->lr[2] = v >> 4; } break;
    case 53: V(8) { f->lr[0] = 2; f->lr[1] = 1; f->lr_shift = v & 1; f->lr_extra = v >> 1 & 1; f->lr_uv = v >> 2; } break;
    case 54: V(2) f->tx_select = v; break;
    case 55: V(2) f->comp = v; break;
    case 56: V(2) { f->comp = 1; f->skip_mode = v; } break;
    case 57: V(2) f->warp = v; break;
    case 58: V(2) f->reduced_tx = v; break;
    case 59: V(28) f->gm_type[v % 7] = v / 7; break;
    case 60: V(20) { static const int y[] = { -(1 << 9), -3, 1, 255, 511 }; f->gm_type[v % 4] = 1; f->gm[v % 4][v & 1] = y[v / 4] << 13; } break;
    case 61: V(24) { static const int y[] = { -8192, -700, 2, 8190 }; f->gm_type[1] = v / 12 ? 3 : 2; int k = v / 4 % 3, i = k == 0 ? 2 : k == 1 ? 3 : 0; f->gm[1][i] = i == 0 ? y[v % 4] * 1024 : (i == 2 ? 1 << 16 : 0) + y[v % 4]; } break;
    case 62: V(8) { static const int y[] = { -8192, -2, 4, 8190 }; f->gm_type[6] = 3; int i = 4 + v / 4; f->gm[6][i] = (i == 5 ? 1 << 16 : 0) + y[v % 4]; } break;
    case 63: { T(0, 1, 255, 256, 32768, 65535); g->apply = 1; g->update = 1; g->seed = x; } break;
    case 64: V(15) { g->apply = g->update = 1; g->ny = v; for (int i = 0; i < v; i++) { g->y[i][0] = i * 17 + 3; g->y[i][1] = 255 - i; } } break;
    case 65: V(22) { g->apply = g->update = 1; g->ny = 1; g->y[0][1] = 9; for (int p = 0; p < 2; p++) { g->nuv[p] = v % 11; if (v >= 11 && !(seq_420(s)) ) g->nuv[p] = p ? v % 11 : 0; for (int i = 0; i < g->nuv[p]; i++) { g->uv[p][i][0] = i * 25 + p; g->uv[p][i][1] = i * 20 + 5; } g->cb_mult[p] = 7 * v; g->cb_luma[p] = 255 - 7 * v; g->cb_off[p] = 511 - v * 20; } } break;
    case 66: V(4) { g->apply = g->update = 1; g->cfl = v & 1; g->ny = v >> 1; g->y[0][1] = 50; } break;
    case 67: V(16) { g->apply = g->update = 1; g->ny = 1; g->y[0][1] = 30; g->lag = v & 3; g->cfl = v >> 2 & 1; for (int i = 0; i < 24; i++) g->ar_y[i] = v >> 3 ? -128 + i : 127 - i; for (int p = 0; p < 2; p++) for (int i = 0; i < 25; i++) g->ar_uv[p][i] = i * 3 - 40 + p; } break;
    case 68: V(64) { g->apply = g->update = 1; g->ny = 1; g->y[0][1] = 30; g->scaling_m8 = v & 3; g->ar_shift_m6 = v >> 2 & 3; g->grain_shift = v >> 4; } break;
    case 69: V(4) { g->apply = g->update = 1; g->ny = 1; g->y[0][1] = 30; g->overlap = v & 1; g->clip = v >> 1; } break;
    case 70: V(8) { g->apply = 1; g->update = 0; g->ref_slot = v; g->seed = 999 + v; } break;
    case 71: V(2) f->err_res = v; break;
    case 72: V(2) f->showable = v; break;
    case 73: V(8) { f->brt_present = v > 0; for (int i = 0; i < 32; i++) f->brt[i] = v ? (0xabcdu * (v + i)) & ((1u << s->rem_len) - 1) : 0; } break;
    case 74: V(6) f->pres_delay = v ? (0x12345u * v) & ((1u << s->pres_len) - 1) : 0; break;
    case 75: V(32) { f->has_ext = 1; f->tid = v & 7; f->sid = v >> 3; } break;
    case 76: V(7) { f->size_override = 1; f->found_ref = v; } break;
    case 77: V(64) { f->size_override = 1; f->found_ref = v % 7; f->sr = 1; f->denom = 9 + v / 8; } break;
    default: return 0;
    }
    return 1;
}

#undef V
#undef T
/* ---- streams around the frame under test */
enum { C_DEF, C_MODEL, C_444, C_PLAIN, C_MONO, C_420FG, C_STILL, C_FIXED, C_NB };
static const char *const cname[C_NB] = { "default", "model", "sb128-444", "plain", "mono", "420fg", "still", "fixed" };
enum { K_KEY, K_HKEY, K_INTRA, K_P7, K_P0, K_ERR, K_SW, K_HINT, K_NB };
static const char *const kname[K_NB] = { "key", "hidden-key", "intra", "inter", "inter-primary", "inter-resilient", "switch", "hidden-inter" };
static void cfg_seq(AwSeq *s, int c, int sz) {
    aw_seq_default(s, sz, sz);
    switch (c) {
    case C_DEF: s->superres = 1; s->fg = 1; break;
    case C_MODEL:
        s->timing = s->dec_model = s->disp_model = 1; s->units_tick = 3; s->time_scale = 90000; s->enc_delay_len = 9; s->units_dec_tick = 7; s->rem_len = 12; s->pres_len = 17;
        s->frame_ids = 1; s->delta_id_len = 14; s->id_len = 15; s->n_op = 4;
        s->op[0].idc = 0xfff; s->op[1].idc = 0x103; s->op[2].idc = 0x301; s->op[3].idc = 0x101;
        for (int i = 0; i < 4; i++) { s->op[i].level = 5 + i; s->op[i].dm_present = i != 2; s->op[i].dbd = 3 + i; s->op[i].ebd = 100 + i; s->op[i].disp_present = i & 1; s->op[i].disp_m1 = i; }
        break;
    case C_444: s->profile = 1; s->hbd = 1; s->ssx = s->ssy = 0; s->sb128 = 1; s->superres = 1; s->fg = 1; s->sep_uv = 1; s->oh_bits = 3; break;
    case C_PLAIN: s->order_hint = s->jnt = s->refmvs = s->cdef = s->lr = s->warped = s->interintra = s->masked = s->dual = s->filter_intra = 0; s->wbits = 9; s->hbits = 10; break;
    case C_MONO: s->mono = 1; s->fg = 1; s->oh_bits = 5; break;
    case C_420FG: s->fg = 1; s->sep_uv = 1; s->sb128 = 1; s->oh_bits = 8; break;
    case C_STILL: s->still = s->reduced = 1; s->fg = 1; s->superres = 1; break;
    case C_FIXED: s->sct = 1; s->fimv = 0; s->fg = 1; break;
    }
}
static void grain0(AwGrain *g, int seed, int k) {
    g->apply = g->update = 1; g->seed = seed; g->ny = 2; g->y[0][0] = 3 + k; g->y[0][1] = 60; g->y[1][0] = 200; g->y[1][1] = 120 - k;
    g->nuv[0] = g->nuv[1] = 1; g->uv[0][0][0] = 128; g->uv[0][0][1] = 70 + k; g->uv[1][0][0] = 100; g->uv[1][0][1] = 80; g->scaling_m8 = k & 3; g->lag = 1; g->ar_shift_m6 = 1;
    for (int i = 0; i < 24; i++) g->ar_y[i] = i - 11 + k;
    for (int p = 0; p < 2; p++) for (int i = 0; i < 25; i++) g->ar_uv[p][i] = 9 - i + p;
    for (int p = 0; p < 2; p++) { g->cb_mult[p] = 128 + k; g->cb_luma[p] = 192; g->cb_off[p] = 256 - k; }
    g->overlap = k & 1;
}
static void rich(AwFrm *f, int k) {
    f->seg = f->seg_map = f->seg_data = 1;
    for (int i = 0; i < 8; i += 1 + k) { f->seg_en[i] = (0x1f >> (i & 3)) | (i == 6 ? 0x20 : 0); for (int j = 0; j < 5; j++) f->seg_val[i][j] = (i * 5 + j * 3 + k) % 23 - 11; f->seg_val[i][5] = k ? 1 : 0; }
    f->lf_de = f->lf_du = 1; f->lf_rmask = 0x5a + k; f->lf_mmask = 1 + k; for (int i = 0; i < 8; i++) f->lf_r[i] = i * 4 - 13 + k; f->lf_m[0] = 7 - k; f->lf_m[1] = -9;
    f->yac = 120; grain0(&f->fg, 500 + k, k);
}
/* a frame whose references are usable: scaling limits, grain reference, tile count */
static int frame_ok(const AwEnc *e, const AwFrm *f, int type) {
    const AwRef *c = &e->cur;
    if (type & 1) for (int i = 0; i < 7; i++) { const AwRef *r = &e->ref[c->refidx[i]]; if (2 * c->fw < r->uw || 2 * c->h < r->h || c->fw > 16 * r->uw || c->h > 16 * r->h) return 0; }
    if ((c->log2c || c->log2r) && f->ctx_tile >= c->cols * c->rows) return 0;
    if (e->seq.fg && f->fg.apply && type == 1 && !f->fg.update && (f->show || c->showable)) { int ok = 0; for (int i = 0; i < 7; i++) ok |= c->refidx[i] == f->fg.ref_slot; if (!ok) return 0; }
    return 1;
}
typedef struct { AwRef r; int64_t ts; } Exp;
static Exp g_exp[48]; static int g_nexp;
static void unit(AwEnc *e, AwFrm *f, Pkts *k, uint64_t seed, int mode) {
    B.n = 0; aw_put_td(&B); if (!k->n) aw_put_seq(e, &B);
    aw_derive(e, f); int len = (e->cur.uw * e->cur.h * 3) >> 1; if (len < 1500) len = 1500; if (len > 16000) len = 16000;
    if (e->cur.cols * e->cur.rows > 1) len = len / 2 + 1500;
    put_frame(e, f, &B, seed, len, mode); pk_add(k, &B);
    if (e->seq.reduced || f->show) { g_exp[g_nexp].r = e->cur; g_exp[g_nexp].ts = k->v[k->n - 1].ts; g_nexp++; }
}
static void show_slot(AwEnc *e, int slot, Pkts *k) {
    AwRef r = e->ref[slot]; B.n = 0; aw_put_td(&B);
    aw_put_show_existing(e, slot, &B);
    pk_add(k, &B); g_exp[g_nexp].r = r; g_exp[g_nexp].ts = k->v[k->n - 1].ts; g_nexp++;
}
static void base_frame(const AwEnc *e, AwFrm *f, int kind, int sz) {
    static const int types[K_NB] = { 0, 0, 2, 1, 1, 1, 3, 1 };
    aw_frm_default(e, f, types[kind]);
    f->order_hint = 2; f->frame_id = 12; f->refresh = 8; f->w = f->h = f->rw = f->rh = sz;
    static const int ri[7] = { 2, 0, 1, 3, 4, 5, 6 }; memcpy(f->refidx, ri, sizeof(ri));
    if (kind == K_KEY || kind == K_SW) f->refresh = 0xff;
    if (kind == K_P0 || kind == K_HINT) f->primary = 0;
    if (kind == K_ERR) f->err_res = 1;
    if (kind == K_HKEY || kind == K_HINT) f->show = 0;
    if (kind == K_HKEY) f->err_res = 0;
}
/* build the stream; 0 when the combination is not a valid stream */
static int build(AwEnc *e, int cfg, int kind, const int (*fv)[2], int nf, int sz, uint64_t seed, Pkts *k) {
    AwFrm f; memset(e, 0, sizeof(*e)); memset(k, 0, sizeof(*k)); g_nexp = 0;
    cfg_seq(&e->seq, cfg, sz); const AwSeq *s = &e->seq;
    if (!s->reduced) {
        aw_frm_default(e, &f, 0); f.order_hint = 0; f.frame_id = 10; rich(&f, 0); unit(e, &f, k, seed * 5 + 1, 0);
        aw_frm_default(e, &f, 1); f.order_hint = 1; f.frame_id = 11; rich(&f, 1); f.refresh = 4; f.primary = 3; f.gm_type[0] = 3; f.gm[0][0] = 2000; f.gm[0][2] = (1 << 16) + 300; f.gm[0][3] = -60; f.gm[0][4] = 80; f.gm[0][5] = (1 << 16) - 90; f.gm_type[4] = 1; f.gm[4][1] = 5 << 13;
        f.refidx[2] = 7; unit(e, &f, k, seed * 5 + 2, 0);
    }
    base_frame(e, &f, kind, sz);
    for (int i = 0; i < nf; i++) if (!apply(fv[i][0], fv[i][1], s, &f)) { pk_free(k); return 0; }
    aw_derive(e, &f);
    if (!frame_ok(e, &f, s->reduced ? 0 : f.type)) { pk_free(k); return 0; }
    if (f.intrabc && e->cur.intrabc && f.type != 0 && f.type != 2) { pk_free(k); return 0; }
    unit(e, &f, k, seed * 5 + 3, 0);
    if (s->reduced) return 1;
    const AwRef c = e->cur; int slot = -1;
    for (int i = 7; i >= 0; i--) if (c.refresh >> i & 1) slot = i;
    const int src = slot < 0 ? 2 : slot, hidden = !f.show;
    if (hidden && slot >= 0 && c.showable) show_slot(e, slot, k);
    AwFrm g; aw_frm_default(e, &g, 1); g.order_hint = (3) & ((1 << s->oh_bits) - 1); g.frame_id = 13; g.refresh = src == 6 ? 0x20 : 0x40;
    for (int i = 0; i < 7; i++) g.refidx[i] = src;
    g.primary = 0; g.seg = 1; g.seg_map = g.seg_data = 0; g.size_override = 1; g.found_ref = nf ? fv[0][1] % 7 : 0;
    if (s->fg && e->ref[src].fg.apply) { g.fg.apply = 1; g.fg.update = 0; g.fg.ref_slot = src; g.fg.seed = 777; }
    for (int i = 0; i < 7; i++) { g.gm_type[i] = e->ref[src].gm_type[i]; memcpy(g.gm[i], e->ref[src].gm[i], sizeof(g.gm[i])); g.gm[i][0] += 64 << 7; }
    aw_derive(e, &g); if (!frame_ok(e, &g, 1)) return 1;
    unit(e, &g, k, seed * 5 + 4, 0);
    if (!hidden && slot >= 0 && c.showable) show_slot(e, slot, k);
    return 1;
}
static int g_match;
static void deliver(Dav1dContext *c, const AwSeq *s, int *n) {
    for (;;) {
        Dav1dPicture p; memset(&p, 0, sizeof(p));
        const int r = dav1d_get_picture(c, &p); if (r) return;
        if (*n < g_nexp) {
            /* pictures of a stream come in order; a failed frame loses its picture: match by timestamp */
            int j = *n; while (j < g_nexp && g_exp[j].ts != p.m.timestamp) j++;
            if (j < g_nexp) {
                const AwRef *x = &g_exp[j].r; *n = j + 1; g_match++;
                if (frm_cmp(p.frame_hdr, s, x)) en_viol_("picture %d: %s", j, hc_msg);
                else if (seq_cmp(p.seq_hdr, s)) en_viol_("picture %d: sequence header: %s", j, hc_msg);
                else if (p.p.w != x->uw || p.p.h != x->h || p.p.bpc != x->bitdepth || p.p.layout != (x->mono ? 0 : x->ssx ? x->ssy ? 1 : 2 : 3)) en_viol_("picture %d: reported as %dx%d, layout %d, %d bits", j, p.p.w, p.p.h, p.p.layout, p.p.bpc);
                en_evals++; en_seen(h64(H0, p.frame_hdr, sizeof(*p.frame_hdr)));
            } else en_viol_("a picture with timestamp %lld that nothing codes", (long long)p.m.timestamp);
        } else en_viol_("more pictures than coded");
        dav1d_picture_unref(&p);
    }
}
static Dav1dContext *g_ctx[2];
static void one_case(int cfg, int kind, const int (*fv)[2], int nf, int mt) {
    static AwEnc e; Pkts k; int sz = 32; for (int i = 0; i < nf; i++) if (fv[i][0] >= 20 && fv[i][0] <= 24) sz = 192;
    if (sz == 192 && cfg == C_444) sz = 256;
    int tries = 8; for (int i = 0; i < nf; i++) if (fv[i][0] == 11 && fv[i][1]) tries = 40;
    if (!g_ctx[mt]) { Dav1dSettings st; dec_settings(&st, mt ? 3 : 1, mt ? 2 : 1); if (dav1d_open(&g_ctx[mt], &st)) exit(2); }
    Dav1dContext *const c = g_ctx[mt]; int full = 0, best = 0;
    for (int t = 0; t < tries && !full; t++) {
        if (!build(&e, cfg, kind, fv, nf, sz, en_seed * 1000 + t * 17 + cfg, &k)) return;
        int n = 0; g_match = 0;
        for (int i = 0; i < k.n; i++) {
            Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, k.v[i].p, k.v[i].n, dec_free_none, NULL); d.m.timestamp = k.v[i].ts;
            for (int it = 0; d.sz && it < 20; it++) { const int r = dav1d_send_data(c, &d); if (r && r != DAV1D_ERR(EAGAIN)) dav1d_data_unref(&d); deliver(c, &e.seq, &n); }
        }
        for (int i = 0; i < 6; i++) deliver(c, &e.seq, &n);
        full = g_match == g_nexp; if (g_match > best) best = g_match;
        dav1d_flush(c); pk_free(&k);
        if (en_viol >= 8) break;
    }
    if (full) en_nontrivial++; else { g_undelivered++; if (tries == 8) en_viol_("a valid stream is not decoded completely (%d of %d pictures, with %d different payloads)", best, g_nexp, tries); }
}
#endif

#if PART == 2
static int field_n(int id) { static AwFrm f; static AwSeq s; memset(&f, 0, sizeof(f)); aw_seq_default(&s, 32, 32); s.oh_bits = 6; s.rem_len = s.pres_len = 8; int n = 0; while (n < 400 && apply(id, n, &s, &f)) n++; return n; }
static int relevant(int id, int cfg, int kind) {
    if (cfg == C_STILL && kind) return 0;
    if (cfg == C_PLAIN && (id == 3 || id == 12 || id == 13 || (id >= 49 && id <= 53) || (id >= 63 && id <= 70) || id == 18)) return 0;
    if ((id >= 63 && id <= 70) && cfg == C_MODEL) return 0;
    if ((id == 73 || id == 74 || id == 75) && cfg != C_MODEL && !(id == 75 && cfg == C_DEF)) return 0;
    if ((id == 8 || id == 77) && cfg != C_DEF && cfg != C_444 && cfg != C_STILL) return 0;
    const int intra = kind < K_P7;
    if (intra && (id == 4 || (id >= 12 && id <= 18) || id == 55 || id == 56 || id == 57 || (id >= 59 && id <= 62) || id == 70 || id == 76 || id == 77)) return 0;
    if (!intra && id == 11) return 0;
    return 1;
}
/* order hints: every assignment of hints to four stored frames and the current one (references listed explicitly and derived by short signaling) */
static int hint_dist(int bits, int a, int b) { const int d = a - b, m = 1 << (bits - 1); return (d & (m - 1)) - (d & m); }
static void hints(int bits, int stride) {
    static AwEnc e; const int H = 1 << bits, m = H - 1; Pkts k;
    for (int blk = 0; blk < H * H; blk++) {
        if (en_over()) return;
        if (!en_begin("hints:%d:%d", bits, blk)) continue;
        for (int lo = 0; lo < H * H; lo += stride) {
            const int hv[4] = { blk & m, blk >> bits, lo & m, lo >> bits }; AwFrm f;
            memset(&e, 0, sizeof(e)); memset(&k, 0, sizeof(k)); g_nexp = 0; aw_seq_default(&e.seq, 16, 16); e.seq.oh_bits = bits;
            for (int j = 0; j < 4; j++) { aw_frm_default(&e, &f, j ? 1 : 0); f.order_hint = hv[j]; f.refresh = j ? 0x11 << j : 255; if (j) { for (int i = 0; i < 7; i++) f.refidx[i] = 0; f.primary = 7; } unit(&e, &f, &k, en_seed * 3 + j, 0); }
            for (int cur = 0; cur < H; cur += H > 8 ? 3 : 1) for (int sig = 0; sig < (en_quick ? 2 : 5); sig++) {
                if (g_nexp >= 46) break;
                aw_frm_default(&e, &f, 1); f.order_hint = cur; f.refresh = 0; f.comp = 1; f.primary = 7; f.skip_mode = (cur ^ lo) & 1;
                const int z = lo * 7 + cur * 3 + sig * 5 + blk; for (int i = 0; i < 7; i++) f.refidx[i] = (i * (1 + (z & 2)) + (z >> 2)) & (sig == 1 ? 7 : 3);
                if (sig & 1) { f.short_sig = 1; f.refidx[0] = z & 7; f.refidx[3] = z >> 3 & 7; if (hint_dist(bits, hv[f.refidx[0] & 3], cur) >= 0 || hint_dist(bits, hv[f.refidx[3] & 3], cur) >= 0) continue; }
                unit(&e, &f, &k, en_seed * 3 + 9, 0);
            }
            if (!g_ctx[0]) { Dav1dSettings st; dec_settings(&st, 1, 1); if (dav1d_open(&g_ctx[0], &st)) exit(2); }
            int n = 0; g_match = 0;
            for (int i = 0; i < k.n; i++) {
                Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, k.v[i].p, k.v[i].n, dec_free_none, NULL); d.m.timestamp = k.v[i].ts;
                for (int it = 0; d.sz && it < 20; it++) { const int r = dav1d_send_data(g_ctx[0], &d); if (r && r != DAV1D_ERR(EAGAIN)) dav1d_data_unref(&d); deliver(g_ctx[0], &e.seq, &n); }
            }
            if (g_match == g_nexp) en_nontrivial++; else g_undelivered++;
            dav1d_flush(g_ctx[0]); pk_free(&k);
            if (en_viol >= 6) return;
        }
    }
}
static void frm_cases(void) {
    int n[F_NFIELDS], ctr = 0; for (int i = 0; i < F_NFIELDS; i++) n[i] = field_n(i);
    for (int cfg = 0; cfg < C_NB; cfg++) for (int kind = 0; kind < K_NB; kind++) {
        if (cfg == C_STILL && kind) continue;
        if (en_begin("plain:%s:%s", cname[cfg], kname[kind])) one_case(cfg, kind, NULL, 0, 0);
        for (int id = 0; id < F_NFIELDS; id++) {
            if (!relevant(id, cfg, kind)) continue;
            for (int v = 0; v < n[id]; v++) {
                /* quick: every value is coded in some configuration and kind, every field in each of them */
                if (en_quick && v > 1 && v != n[id] - 1 && (v * 7 + id + cfg * 3 + kind) % 4) continue;
                if (!en_begin("field:%s:%s:%d:%d", cname[cfg], kname[kind], id, v)) continue;
                const int fv[1][2] = { { id, v } }; one_case(cfg, kind, fv, 1, (id + v + cfg + kind) % 7 == 3);
            }
        }
    }
    for (int a = 0; a < F_NFIELDS; a++) for (int b = 0; b < a; b++) for (int x = 0; x < 4; x++) {
        const int va = x & 1 ? n[a] - 1 : 1 % n[a], vb = x & 2 ? n[b] - 1 : 1 % n[b];
        for (int cfg = 0; cfg < C_NB; cfg++) for (int kind = 0; kind < K_NB; kind++) {
            if (!relevant(a, cfg, kind) || !relevant(b, cfg, kind) || a == 11 || b == 11) continue;
            if (en_quick && (ctr++ * 2654435761u >> 8) % 8) continue;
            if (en_over()) return;
            if (!en_begin("pair:%s:%s:%d:%d:%d:%d", cname[cfg], kname[kind], a, va, b, vb)) continue;
            const int fv[2][2] = { { a, va }, { b, vb } }; one_case(cfg, kind, fv, 2, 0);
        }
    }
    if (en_quick) return;
    for (int a = 0; a < F_NFIELDS; a++) for (int b = 0; b < a; b++) for (int d = 0; d < b; d++)
        for (int cfg = 0; cfg < C_NB; cfg++) for (int kind = 0; kind < K_NB; kind++) {
            if (!relevant(a, cfg, kind) || !relevant(b, cfg, kind) || !relevant(d, cfg, kind) || a == 11 || b == 11 || d == 11) continue;
            if (en_over()) return;
            const int x = (a + b + d) & 7, va = x & 1 ? n[a] - 1 : 1 % n[a], vb = x & 2 ? n[b] - 1 : 1 % n[b], vd = x & 4 ? n[d] - 1 : 1 % n[d];
            if (!en_begin("triple:%s:%s:%d:%d:%d:%d:%d:%d", cname[cfg], kname[kind], a, va, b, vb, d, vd)) continue;
            const int fv[3][2] = { { a, va }, { b, vb }, { d, vd } }; one_case(cfg, kind, fv, 3, 0);
        }
}
#endif

#if PART == 3
/* good: the stream up to the unit under test decodes; ok: is the unit acceptable? */
static int try_unit(const Pkts *k, int strict, int *pics) {
    Dav1dSettings st; dec_settings(&st, 1, 1); st.strict_std_compliance = strict; Dav1dContext *c; if (dav1d_open(&c, &st)) exit(2);
    int last = 0; *pics = 0;
    for (int i = 0; i < k->n; i++) {
        Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, k->v[i].p, k->v[i].n, dec_free_none, NULL); last = 0;
        for (int it = 0; d.sz && it < 20; it++) {
            int r = dav1d_send_data(c, &d); if (r && r != DAV1D_ERR(EAGAIN)) { last = r; dav1d_data_unref(&d); }
            Dav1dPicture p; memset(&p, 0, sizeof(p)); while (!(r = dav1d_get_picture(c, &p))) { ++*pics; dav1d_picture_unref(&p); memset(&p, 0, sizeof(p)); } if (r != DAV1D_ERR(EAGAIN)) last = r;
        }
    }
    dav1d_close(&c); return last;
}
static void expect(const Pkts *k, int refused, int pics, int strict, const char *what) {
    int n; const int r = try_unit(k, strict, &n); en_evals++; en_nontrivial++; en_seen(hu(hu(H0, r), n));
    if (refused && !r) en_viol_("%s: accepted", what);
    if (refused && n > pics) en_viol_("%s: %d pictures although the header must be refused", what, n);
    if (!refused && r) en_viol_("%s: refused (%d)", what, r);
}
static AwEnc E;
static void prefix(int cfg, int sz, Pkts *k) { AwFrm f; memset(&E, 0, sizeof(E)); memset(k, 0, sizeof(*k)); g_nexp = 0; cfg_seq(&E.seq, cfg, sz); aw_frm_default(&E, &f, 0); f.order_hint = 0; f.frame_id = 10; rich(&f, 0); unit(&E, &f, k, en_seed * 5 + 1, 0);
    aw_frm_default(&E, &f, 1); f.order_hint = 1; f.frame_id = 11; rich(&f, 1); f.refresh = 4; f.primary = 3; f.refidx[2] = 7; unit(&E, &f, k, en_seed * 5 + 2, 0); }
/* one frame after the prefix, as a header OBU only (so that the payload plays no part) */
static void hdr_only(const AwFrm *f, Pkts *k, int cut) {
    static AwEnc x; x = E; AwBuf o = { 0 }; AwTile t[64]; static uint8_t z[16]; for (int i = 0; i < 64; i++) { t[i].p = z; t[i].n = 16; }
    aw_put_frame(&x, f, t, &o, AW_SPLIT);
    const int ext = o.p[0] >> 2 & 1, at = 1 + ext; size_t n = 0; int i = 0; do n |= (size_t)(o.p[at + i] & 127) << (7 * i); while (o.p[at + i++] & 128);
    B.n = 0; aw_put_td(&B); aw_obu(&B, 3, ext, f->tid, f->sid, 1, o.p + at + i, cut > (int)n ? 0 : n - cut); pk_add(k, &B); awb_free(&o);
}
#define NEWK Pkts k; prefix(cfg, sz, &k)
static void rejections(void) {
    char w[160]; AwFrm f; const int sz = 32;
    for (int cfg = 0; cfg < C_NB; cfg++) {
        if (cfg == C_STILL) continue;
        for (int kind = 0; kind < K_NB; kind++) {
            if (en_begin("accept:%s:%s", cname[cfg], kname[kind])) { NEWK; base_frame(&E, &f, kind, sz); rich(&f, 1); hdr_only(&f, &k, 0); expect(&k, 0, 2, 0, "a valid frame header"); pk_free(&k); }
            /* every truncation of the header */
            for (int cut = 1; cut < 64; cut++) if (en_begin("truncated:%s:%s:%d", cname[cfg], kname[kind], cut)) {
                NEWK; base_frame(&E, &f, kind, sz); rich(&f, 1); f.frame_id = 12; E.cur.valid = 0;
                AwEnc *x = malloc(sizeof(*x)); *x = E; AwBuf o = { 0 }; AwTile t[64]; static uint8_t z[4]; for (int i = 0; i < 64; i++) { t[i].p = z; t[i].n = 4; }
                aw_put_frame(x, &f, t, &o, AW_SPLIT); const int n = o.p[1] & 128 ? (o.p[1] & 127) | o.p[2] << 7 : o.p[1]; const uint8_t lastb = o.p[1 + (o.p[1] & 128 ? 2 : 1) + n - 1];
                awb_free(&o); free(x);
                /* the last byte may hold nothing but trailing bits */
                if (cut < n && !(cut == 1 && lastb == 0x80)) { hdr_only(&f, &k, cut); expect(&k, 1, 2, 0, "a truncated frame header"); }
                pk_free(&k);
            }
        }
        if (en_begin("tile-context:%s", cname[cfg])) for (int lc = 0; lc < 2; lc++) for (int lr = 0; lr < 2; lr++) for (int ct = 0; ct < 4; ct++) {
            if (!lc && !lr) continue;
            const int sz = 256; NEWK; aw_frm_default(&E, &f, 1); f.frame_id = 12; f.order_hint = 2; f.log2c = lc; f.log2r = lr; f.ctx_tile = ct; aw_derive(&E, &f); const int nt = E.cur.cols * E.cur.rows;
            if (ct < 1 << (E.cur.log2c + E.cur.log2r)) { snprintf(w, sizeof(w), "context tile %d of %d", ct, nt); hdr_only(&f, &k, 0); expect(&k, ct >= nt, 2, 0, w); }
            pk_free(&k);
        }
        if (en_begin("tile-context3:%s", cname[cfg])) for (int ct = 0; ct < 16; ct++) { /* 3x3 tiles: 4 bits code only 9 */
            const int sz = cfg == C_444 || cfg == C_420FG ? 384 : 192; NEWK; aw_frm_default(&E, &f, 1); f.frame_id = 12; f.order_hint = 2; f.uniform = 0; f.nc = f.nr = 3; for (int i = 0; i < 3; i++) f.colw[i] = f.rowh[i] = 1; f.ctx_tile = ct;
            snprintf(w, sizeof(w), "context tile %d of 9", ct); hdr_only(&f, &k, 0); expect(&k, ct >= 9, 2, 0, w); pk_free(&k);
        }
        if (cfg != C_PLAIN && cfg != C_MODEL) {
            if (en_begin("grain-points:%s", cname[cfg])) for (int n = 0; n < 16; n++) { NEWK; aw_frm_default(&E, &f, 1); f.order_hint = 2; grain0(&f.fg, 9, 0); f.fg.ny = n; for (int i = 0; i < n; i++) { f.fg.y[i][0] = i * 3; f.fg.y[i][1] = 9; } if (!n && seq_420(&E.seq)) f.fg.nuv[0] = f.fg.nuv[1] = 0; snprintf(w, sizeof(w), "%d luma points", n); hdr_only(&f, &k, 0); expect(&k, n > 14, 2, 0, w); pk_free(&k); }
            if (cfg != C_MONO && en_begin("grain-uv-points:%s", cname[cfg])) for (int p = 0; p < 2; p++) for (int n = 0; n < 16; n++) for (int m = 0; m < 11; m += 5) { NEWK; aw_frm_default(&E, &f, 1); f.order_hint = 2; grain0(&f.fg, 9, 0); f.fg.nuv[p] = n; f.fg.nuv[!p] = m; for (int q = 0; q < 2; q++) for (int i = 0; i < f.fg.nuv[q]; i++) { f.fg.uv[q][i][0] = i * 3; f.fg.uv[q][i][1] = 9; } snprintf(w, sizeof(w), "%d points in chroma plane %d, %d in the other", n, p, m); hdr_only(&f, &k, 0); expect(&k, n > 10 || (seq_420(&E.seq) && !n != !m), 2, 0, w); pk_free(&k); }
            if (en_begin("grain-order:%s", cname[cfg])) for (int p = 0; p < (cfg == C_MONO ? 1 : 3); p++) for (int i = 1; i < 8; i++) for (int dl = -1; dl < 2; dl++) { NEWK; aw_frm_default(&E, &f, 1); f.order_hint = 2; grain0(&f.fg, 9, 0); f.fg.ny = f.fg.nuv[0] = f.fg.nuv[1] = 8; for (int j = 0; j < 8; j++) { f.fg.y[j][0] = f.fg.uv[0][j][0] = f.fg.uv[1][j][0] = 10 + j * 5; f.fg.y[j][1] = f.fg.uv[0][j][1] = f.fg.uv[1][j][1] = 9; } if (p) f.fg.uv[p - 1][i][0] = f.fg.uv[p - 1][i - 1][0] + dl; else f.fg.y[i][0] = f.fg.y[i - 1][0] + dl; snprintf(w, sizeof(w), "point %d of plane %d %+d from the one before", i, p, dl); hdr_only(&f, &k, 0); expect(&k, dl <= 0, 2, 0, w); pk_free(&k); }
            if (en_begin("grain-ref:%s", cname[cfg])) for (int sl = 0; sl < 8; sl++) for (int only = 0; only < 8; only++) { NEWK; aw_frm_default(&E, &f, 1); f.order_hint = 2; f.fg.apply = 1; f.fg.update = 0; f.fg.ref_slot = sl; f.fg.seed = 3; for (int i = 0; i < 7; i++) f.refidx[i] = only; snprintf(w, sizeof(w), "grain of slot %d, references %d", sl, only); hdr_only(&f, &k, 0); expect(&k, sl != only, 2, 0, w); pk_free(&k); }
        }
        /* missing references: only the slots of a mask were ever filled */
        if (en_begin("missing:%s", cname[cfg])) for (int m = 1; m < 256; m += en_quick ? 5 : 1) for (int s = 0; s < 8; s++) for (int how = 0; how < 3; how++) {
            Pkts k; memset(&E, 0, sizeof(E)); memset(&k, 0, sizeof(k)); g_nexp = 0; cfg_seq(&E.seq, cfg, sz);
            aw_frm_default(&E, &f, 0); f.show = 0; f.frame_id = 10; f.refresh = m; f.err_res = 0; unit(&E, &f, &k, en_seed * 5 + 1, 0);
            const int okslot = m & 1 ? 0 : m & 2 ? 1 : m & 4 ? 2 : m & 8 ? 3 : m & 16 ? 4 : m & 32 ? 5 : m & 64 ? 6 : 7;
            AwEnc *keep = malloc(sizeof(E)); *keep = E; for (int i = 0; i < 8; i++) if (!E.ref[i].valid) { E.ref[i] = E.ref[okslot]; }
            int need = 0;
            if (how == 0) { aw_frm_default(&E, &f, 1); for (int i = 0; i < 7; i++) f.refidx[i] = okslot; f.refidx[(s + m) % 7] = s; need = 1 << s; }
            else if (how == 1) { B.n = 0; aw_put_td(&B); static AwEnc x; x = E; aw_put_show_existing(&x, s, &B); pk_add(&k, &B); need = 1 << s; }
            else { aw_frm_default(&E, &f, 1); f.short_sig = E.seq.order_hint; for (int i = 0; i < 7; i++) f.refidx[i] = s; f.refidx[0] = s; need = E.seq.order_hint ? 0xff : 1 << s; }
            if (how != 1) { f.order_hint = 1; f.frame_id = 11; const AwEnc back = E; unit(&E, &f, &k, en_seed * 5 + 2, 0); E = back; }
            snprintf(w, sizeof(w), "slots %x filled, %s slot %d", m, how == 1 ? "show" : how ? "short signalling with" : "reference", s);
            expect(&k, (need & m) != need, 0, 0, w); free(keep); pk_free(&k);
        }
        if (cfg == C_MODEL && en_begin("frame-id:%s", cname[cfg])) for (int s = 0; s < 8; s++) for (int off = -2; off < 3; off++) for (int how = 0; how < 2; how++) {
            NEWK; if (how) { E.ref[s].f.frame_id += off; B.n = 0; aw_put_td(&B); static AwEnc x; x = E; aw_put_show_existing(&x, s, &B); pk_add(&k, &B);
                if (s != 2) { pk_free(&k); continue; } /* a shown key frame is not shown again */ }
            else { aw_frm_default(&E, &f, 1); f.order_hint = 2; f.frame_id = 20; for (int i = 0; i < 7; i++) f.refidx[i] = (s + i) % 8; E.ref[(s + 3) % 8].f.frame_id += off; hdr_only(&f, &k, 0); }
            snprintf(w, sizeof(w), "%s of slot %d off by %d", how ? "shown frame id" : "reference frame id", s, off); expect(&k, off != 0, 2, 0, w); pk_free(&k);
        }
        /* strict mode refuses what the specification reserves */
        for (int strict = 0; strict < 2; strict++) if (en_begin("strict-intra:%s:%d", cname[cfg], strict)) for (int r = 0; r < 256; r += 1) { NEWK; base_frame(&E, &f, K_INTRA, sz); f.refresh = r; snprintf(w, sizeof(w), "intra-only frame refreshing %x, strict %d", r, strict); hdr_only(&f, &k, 0); if (!strict || r == 255) expect(&k, strict && r == 255, strict ? 2 : 2, strict, w); pk_free(&k); }
    }
    /* sequence headers */
    AwSeq d; aw_seq_default(&d, 16, 16);
    for (int strict = 0; strict < 2; strict++) if (en_begin("seq:%d", strict)) {
        struct { AwSeq s; int bad; const char *w; } t[64]; int n = 0;
        for (int p = 0; p < 8; p++) { t[n].s = d; t[n].s.profile = p; t[n].bad = p > 2; t[n++].w = "profile"; }
        for (int r = 0; r < 2; r++) for (int st = 0; st < 2; st++) { t[n].s = d; t[n].s.reduced = r; t[n].s.still = st; t[n].bad = r && !st; t[n++].w = "reduced still picture header"; }
        for (int u = 0; u < 4; u++) { t[n].s = d; t[n].s.timing = 1; t[n].s.units_tick = u & 1; t[n].s.time_scale = u >> 1; t[n].bad = strict && u != 3; t[n++].w = "timing values"; }
        for (int u = 0; u < 2; u++) { t[n].s = d; t[n].s.timing = t[n].s.dec_model = 1; t[n].s.units_tick = t[n].s.time_scale = 1; t[n].s.enc_delay_len = t[n].s.rem_len = t[n].s.pres_len = 4; t[n].s.units_dec_tick = u; t[n].bad = strict && !u; t[n++].w = "decoding tick"; }
        for (int u = 0; u < 2; u++) { t[n].s = d; t[n].s.timing = t[n].s.equal_pic = 1; t[n].s.units_tick = t[n].s.time_scale = 1; t[n].s.ticks_m1 = 0xfffffffeu + u; t[n].bad = u; t[n++].w = "ticks per picture"; }
        static const int idc[] = { 0, 1, 0x80, 0xff, 0x100, 0x800, 0xf00, 0x101, 0x880, 0xfff };
        for (int i = 0; i < 10; i++) for (int o = 0; o < 2; o++) { t[n].s = d; t[n].s.n_op = 2; t[n].s.op[o].idc = idc[i]; t[n].bad = idc[i] && (!(idc[i] & 0xff) || !(idc[i] & 0xf00)); t[n++].w = "operating point layers"; }
        for (int p = 0; p < 3; p++) for (int hb = 0; hb < (p == 2 ? 3 : 2); hb++) { t[n].s = d; t[n].s.profile = p; t[n].s.hbd = hb; t[n].s.cdesc = 1; t[n].s.pri = 1; t[n].s.trc = 13; t[n].s.mtx = 0; t[n].bad = !(p == 1 || (p == 2 && hb == 2)); t[n++].w = "sRGB"; }
        for (int p = 0; p < 2; p++) { t[n].s = d; t[n].s.profile = p; t[n].s.cdesc = 1; t[n].s.pri = 2; t[n].s.trc = 2; t[n].s.mtx = 0; t[n].bad = strict && !p; t[n++].w = "identity matrix"; }
        for (int i = 0; i < n; i++) {
            Dav1dSettings st; dec_settings(&st, 1, 1); st.strict_std_compliance = strict; Dav1dContext *c; if (dav1d_open(&c, &st)) exit(2);
            B.n = P.n = 0; aw_seq_payload(&t[i].s, &P); aw_obu(&B, 1, 0, 0, 0, 1, P.p, P.n);
            Dav1dData q; memset(&q, 0, sizeof(q)); dav1d_data_wrap(&q, B.p, B.n, dec_free_none, NULL); const int r = dav1d_send_data(c, &q); dav1d_data_unref(&q); dav1d_close(&c);
            if (!r == t[i].bad) en_viol_("sequence header %d (%s), strict %d: %s", i, t[i].w, strict, r ? "refused" : "accepted");
            if (!strict) { Dav1dSequenceHeader h; const int r2 = dav1d_parse_sequence_header(&h, B.p, B.n); if (!r2 == t[i].bad) en_viol_("sequence header %d (%s), stand-alone parser: %s", i, t[i].w, r2 ? "refused" : "accepted"); }
            en_evals++; en_nontrivial++;
        }
    }
}
#endif
int main(int argc, char **argv) {
    en_init(argc, argv);
#if PART == 1
    seq_cases();
#elif PART == 2
    hints(3, 1); hints(1, 1); hints(2, 1); hints(4, en_quick ? 37 : 3);
    frm_cases(); if (!en_quick) hints(8, 20011);
#else
    rejections();
#endif
    if (g_undelivered) en_sample("%d cases were not decoded completely", g_undelivered);
    return en_finish();
}

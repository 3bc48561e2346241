/* S11: metadata, packet properties and event flags, for every order of frames,
 * metadata OBUs, sequence headers and packet boundaries up to a length. */
#include "streams.h"
#include "enumh.h"

enum { K, HK, I, H, X, C, D, T, E, S, O, P, B, W, NTOK };
static const char tn[] = "KkIHXCDTESOPBW";
typedef struct { uint16_t cll[2]; int has_cll; uint16_t prim[8]; uint32_t lum[2]; int has_md; int nt; struct { int cc, ext, n; uint8_t d[12]; } t[8]; } Meta;
typedef struct { Meta m; int64_t ts; size_t size; int gen, flags, hidden, id; } Exp;
typedef struct { uint8_t *p; size_t n; } Pk;
static struct { Pk k[24]; int n; AwBuf b; Exp e[24]; int ne; } st;
static AwEnc enc; static uint8_t pay[2][3000]; static char ud[24];
static AwFrm fr[NTOK];

static void cut(void) { if (!st.b.n) return; Pk *k = &st.k[st.n++]; k->p = malloc(st.b.n); memcpy(k->p, st.b.p, st.b.n); k->n = st.b.n; st.b.n = 0; }
static void st_free(void) { for (int i = 0; i < st.n; i++) free(st.k[i].p); st.n = st.ne = 0; st.b.n = 0; }
static void seq_set(AwSeq *s, int gen, int op) {
    aw_seq_default(s, 16, 16); s->fg = 1; s->timing = s->dec_model = 1; s->units_tick = s->time_scale = 1; s->units_dec_tick = 1; s->enc_delay_len = 8; s->rem_len = s->pres_len = 8; s->equal_pic = 1;
    s->op[0].dm_present = 1; s->op[0].dbd = 5 + op; s->op[0].ebd = 9; s->cdesc = 1; s->pri = 1 + gen; s->trc = 1; s->mtx = 1;
}
/* model + writer; inv: hidden pictures delivered; dft: only key frames decoded; 0 when the order is not a valid stream */
static int build(const int *a, int n, int inv, int dft) {
    Meta pend; memset(&pend, 0, sizeof(pend)); int gen = 0, op = 0, flags = 0, s0 = 0, s1 = 0, first = 1, g1 = 0;
    memset(&enc, 0, sizeof(enc)); seq_set(&enc.seq, 0, 0); st_free();
    aw_put_td(&st.b);
    for (int i = 0; i < n; i++) {
        if (first && a[i] != C && a[i] != D && a[i] != T && a[i] != E && a[i] != B) { aw_put_seq(&enc, &st.b); first = 0; flags |= 1; }
        switch (a[i]) {
        case C: pend.cll[0] = 100 + i; pend.cll[1] = 0xff00 + i; pend.has_cll = 1; aw_put_cll(&st.b, pend.cll[0], pend.cll[1]); break;
        case D: { uint16_t p[3][2], w[2]; for (int j = 0; j < 8; j++) pend.prim[j] = 0x8000 + i * 16 + j; for (int j = 0; j < 6; j++) p[j >> 1][j & 1] = pend.prim[j]; w[0] = pend.prim[6]; w[1] = pend.prim[7];
            pend.lum[0] = 0x80000001u + i; pend.lum[1] = 7 + i; pend.has_md = 1; aw_put_mdcv(&st.b, p, w, pend.lum[0], pend.lum[1]); break; }
        case T: case E: { if (pend.nt == 8) return 0; const int j = pend.nt++; pend.t[j].cc = a[i] == T ? 0xb5 : 0xff; pend.t[j].ext = a[i] == T ? 0 : 0x33 + i; pend.t[j].n = a[i] == T ? 3 + i : 1;
            for (int x = 0; x < pend.t[j].n; x++) pend.t[j].d[x] = a[i] == T ? (x == pend.t[j].n - 1 ? 0x80 : i * 8 + x) : (x ? 0 : 200 + i); aw_put_t35(&st.b, pend.t[j].cc, pend.t[j].ext, pend.t[j].d, pend.t[j].n); break; }
        case S: gen++; seq_set(&enc.seq, gen & 7, op); s0 = s1 = 0; pend.has_cll = pend.has_md = 0; flags |= 1; aw_put_seq(&enc, &st.b); break;
        case O: op++; seq_set(&enc.seq, gen & 7, op & 127); flags |= 2; aw_put_seq(&enc, &st.b); break;
        case P: aw_put_seq(&enc, &st.b); break;
        case B: if (!st.b.n) return 0; cut(); aw_put_td(&st.b); break;
        default: {
            AwFrm f = fr[a[i]]; int at = st.n; const int show = a[i] != HK && a[i] != H;
            if (a[i] == X) { if (s1 != 2 && s1 != 3) return 0; aw_put_show_existing(&enc, 1, &st.b); f.order_hint = g1; }
            else {
                if ((a[i] == I || a[i] == H || a[i] == W) && !s0) return 0;
                f.order_hint = i + 1;
                AwTile t[2] = { { pay[0], 900 }, { pay[1], 900 } };
                if (a[i] == W) { /* header, then two tile groups, each in a packet of its own */
                    AwBuf o = { 0 }; aw_put_frame(&enc, &f, t, &o, AW_SPLIT | AW_TG1); size_t x = 0; int part = 0;
                    while (x < o.n) { size_t hl = 1, len = 0; int sh = 0; uint8_t b; do { b = o.p[x + hl++]; len |= (size_t)(b & 127) << sh; sh += 7; } while (b & 128);
                        if (part) cut(); if (part == 1) at = st.n; awb_put(&st.b, o.p + x, hl + len); x += hl + len; part++; }
                    awb_free(&o);
                } else aw_put_frame(&enc, &f, t, &st.b, 0);
            }
            const int type = a[i] == X ? s1 == 2 ? 0 : 1 : f.type;
            if (dft && type != 0) { if (show) pend.nt = 0; }
            else if (show || inv) {
                Exp *e = &st.e[st.ne++]; memset(e, 0, sizeof(*e)); e->ts = at; e->gen = gen; e->flags = flags; e->hidden = !show; e->id = f.order_hint; flags = 0;
                if (show) { e->m = pend; pend.nt = 0; }
            }
            if (a[i] == K) { s0 = s1 = 1; }
            if (a[i] == HK) { s1 = 2; g1 = i + 1; } if (a[i] == H) { s1 = 3; g1 = i + 1; }
            if (a[i] == X && s1 == 2) { s0 = s1 = 1; }
            break; }
        }
    }
    cut();
    for (int i = 0; i < st.ne; i++) st.e[i].size = st.k[st.e[i].ts].n;
    return st.ne > 0;
}
static void free_ud(const uint8_t *d, void *c) { (void)d; (void)c; }
static int check(const Dav1dPicture *p, const Exp *e, const char *when) {
    const Meta *m = &e->m;
#define CK(x, ...) do { if (!(x)) { char b_[200]; snprintf(b_, sizeof(b_), __VA_ARGS__); en_viol_("%s: %s", when, b_); return 1; } } while (0)
    CK(p->m.timestamp == e->ts && p->m.duration == e->ts + 1000 && p->m.offset == e->ts * 7 && p->m.size == e->size && p->m.user_data.data == (uint8_t *)&ud[e->ts], "picture %d has the properties of packet %lld (size %zu), not %lld (size %zu)", e->id, (long long)p->m.timestamp, p->m.size, (long long)e->ts, e->size);
    CK(p->frame_hdr->frame_offset == e->id, "frame %d delivered instead of %d", p->frame_hdr->frame_offset, e->id);
    CK((int)p->seq_hdr->pri == 1 + (e->gen & 7), "frame %d carries the wrong sequence header", e->id);
    CK(!p->content_light == !m->has_cll, "frame %d: content light level %s", e->id, m->has_cll ? "missing" : "unexpected");
    if (m->has_cll) CK(p->content_light->max_content_light_level == m->cll[0] && p->content_light->max_frame_average_light_level == m->cll[1], "frame %d: wrong content light level", e->id);
    CK(!p->mastering_display == !m->has_md, "frame %d: mastering display %s", e->id, m->has_md ? "missing" : "unexpected");
    if (m->has_md) { const Dav1dMasteringDisplay *q = p->mastering_display; for (int j = 0; j < 8; j++) CK((j < 6 ? q->primaries[j >> 1][j & 1] : q->white_point[j - 6]) == m->prim[j], "frame %d: wrong mastering display", e->id); CK(q->max_luminance == m->lum[0] && q->min_luminance == m->lum[1], "frame %d: wrong mastering luminance", e->id); }
    CK((int)p->n_itut_t35 == m->nt && !p->itut_t35 == !m->nt, "frame %d: %zu T.35 messages instead of %d", e->id, p->n_itut_t35, m->nt);
    for (int j = 0; j < m->nt; j++) { const Dav1dITUTT35 *q = &p->itut_t35[j]; CK(q->country_code == m->t[j].cc && q->country_code_extension_byte == m->t[j].ext && (int)q->payload_size == m->t[j].n && !memcmp(q->payload, m->t[j].d, m->t[j].n), "frame %d: T.35 message %d is wrong", e->id, j); }
    return 0;
}
static const struct { int t, d, inv, dft, hold; } cfg[] = { { 1, 1, 0, 0, 1 }, { 2, 2, 0, 0, 1 }, { 1, 1, 1, 0, 0 }, { 3, 3, 1, 0, 1 }, { 1, 1, 0, 1, 0 }, { 2, 2, 0, 1, 0 }, { 2, 1, 0, 0, 0 }, { 4, 3, 0, 0, 0 } };
enum { NCFG = sizeof(cfg) / sizeof(*cfg) };
static Dav1dContext *ctx[NCFG];
static void run(const int *a, int n, int ci) {
    if (!build(a, n, cfg[ci].inv, cfg[ci].dft)) return;
    if (!ctx[ci]) { Dav1dSettings s; dec_settings(&s, cfg[ci].t, cfg[ci].d); s.output_invisible_frames = cfg[ci].inv; if (cfg[ci].dft) s.decode_frame_type = DAV1D_DECODEFRAMETYPE_KEY; if (dav1d_open(&ctx[ci], &s)) exit(2); }
    Dav1dContext *const c = ctx[ci]; Dav1dPicture held[24]; int nh = 0, got = 0; enum Dav1dEventFlags fl;
    char cs[64]; snprintf(cs, sizeof(cs), "threads=%d delay=%d invisible=%d keyonly=%d", cfg[ci].t, cfg[ci].d, cfg[ci].inv, cfg[ci].dft);
    dav1d_get_event_flags(c, &fl); en_evals++;
    int bad = 0;
    for (int i = 0, dr = 0; (i < st.n || dr < 2) && !bad;) {
        if (i < st.n) {
            Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, st.k[i].p, st.k[i].n, dec_free_none, NULL);
            d.m.timestamp = i; d.m.duration = i + 1000; d.m.offset = i * 7; dav1d_data_wrap_user_data(&d, (uint8_t *)&ud[i], free_ud, NULL);
            const int r = dav1d_send_data(c, &d);
            if (r == 0) i++; else { dav1d_data_unref(&d); if (r != DAV1D_ERR(EAGAIN)) { en_viol_("%s: packet %d refused (%d)", cs, i, r); bad = 1; } }
        }
        Dav1dPicture p; memset(&p, 0, sizeof(p)); const int r = dav1d_get_picture(c, &p);
        if (r == DAV1D_ERR(EAGAIN)) { if (i >= st.n) dr++; continue; }
        if (r) { en_viol_("%s: error %d", cs, r); bad = 1; break; }
        dr = 0; dav1d_get_event_flags(c, &fl);
        if (got >= st.ne) { en_viol_("%s: an extra picture", cs); bad = 1; }
        else {
            bad = check(&p, &st.e[got], cs);
            const int want = (st.e[got].flags & 1 ? DAV1D_EVENT_FLAG_NEW_SEQUENCE : 0) | (st.e[got].flags & 2 ? DAV1D_EVENT_FLAG_NEW_OP_PARAMS_INFO : 0);
            if (!bad && ((int)fl & want) != want) { en_viol_("%s: picture %d: event flags %x instead of %x", cs, st.e[got].id, fl, want); bad = 1; }
            else if (!bad && (int)fl != want) { en_viol_("%s: picture %d: event flags %x although nothing new started (%x expected)", cs, st.e[got].id, fl, want); bad = 1; }
            if (st.e[got].m.has_cll | st.e[got].m.has_md | st.e[got].m.nt) en_nontrivial++;
            en_seen(hu(hu(pic_meta_hash(&p), fl), n));
        }
        got++;
        if (cfg[ci].hold && nh < 24) held[nh++] = p; else dav1d_picture_unref(&p);
    }
    if (!bad && got != st.ne) en_viol_("%s: %d pictures instead of %d", cs, got, st.ne);
    dav1d_flush(c);
    if (bad) dav1d_close(&ctx[ci]);
    for (int i = 0; i < nh; i++) { if (!bad && i < st.ne) bad = check(&held[i], &st.e[i], "after all was decoded and flushed"); dav1d_picture_unref(&held[i]); }
}
static void all(const int *al, int na, int depth, int stride) {
    long tot = 1; for (int i = 0; i < depth; i++) tot *= na;
    const long blk = tot > 4096 ? tot / 4096 : 1; char s[64];
    for (long b = 0; b < tot; b += blk) {
        if (en_over()) return;
        if (!en_begin("orders:%d:%d:%ld", na, depth, b)) continue;
        for (long x = b; x < b + blk && x < tot; x += 1) {
            if (stride > 1 && (x * 2654435761u >> 7) % stride) continue;
            int a[16]; long y = x; for (int i = 0; i < depth; i++) { a[i] = al[y % na]; y /= na; s[i] = tn[a[i]]; }
            a[depth] = I; s[depth] = 0;
            const char *save = strrchr(en_case, '|'); if (save) en_case[save - en_case] = 0; size_t l = strlen(en_case); snprintf(en_case + l, sizeof(en_case) - l, "|%s", s);
            for (int ci = 0; ci < NCFG; ci++) run(a, depth + 1, ci);
        }
        char *p = strchr(en_case, '|'); if (p) *p = 0;
    }
}
/* a change of any part of the sequence header that makes it a new sequence must be reported, and nothing else */
static void seq_changes(void) {
    for (int f = 0; f < 34; f++) for (int td = 0; td < 2; td++) {
        if (!en_begin("seqchange:%d:%d", f, td)) continue;
        Dav1dSettings s; dec_settings(&s, td ? 2 : 1, td ? 2 : 1); Dav1dContext *c; if (dav1d_open(&c, &s)) exit(2);
        memset(&enc, 0, sizeof(enc)); int seen = 0, pics = 0, want = f >= 31 ? f == 33 ? 0 : DAV1D_EVENT_FLAG_NEW_OP_PARAMS_INFO : DAV1D_EVENT_FLAG_NEW_SEQUENCE;
        for (int k = 0; k < 2; k++) {
            AwSeq *q = &enc.seq; seq_set(q, 0, 0); q->disp_model = 1; q->frame_ids = 1; q->delta_id_len = 4; q->id_len = 8; q->superres = 1; q->n_op = 2; q->op[0].idc = 0; q->op[1].idc = 0x101; q->op[1].dm_present = 1; q->equal_pic = 1; q->ticks_m1 = 3;
            if (k) switch (f) {
            case 0: q->w = 17; break; case 1: q->h = 18; break; case 2: q->fg = 0; break; case 3: q->range = 1; break; case 4: q->pri = 9; break; case 5: q->trc = 16; break; case 6: q->mtx = 9; break;
            case 7: q->hbd = 1; break; case 8: q->profile = 1; q->ssx = q->ssy = 0; break; case 9: q->mono = 1; break; case 10: q->chr = 1; break; case 11: q->sb128 = 1; break; case 12: q->filter_intra = 0; break; case 13: q->intra_edge = 0; break;
            case 14: q->interintra = 0; break; case 15: q->masked = 0; break; case 16: q->warped = 0; break; case 17: q->dual = 0; break; case 18: q->jnt = 0; break; case 19: q->refmvs = 0; break; case 20: q->oh_bits = 5; break;
            case 21: q->sct = 0; break; case 22: q->fimv = 0; break; case 23: q->superres = 0; break; case 24: q->cdef = 0; break; case 25: q->lr = 0; break; case 26: q->time_scale = 9; break; case 27: q->op[0].level = 12; break; case 28: q->op[1].idc = 0x103; break;
            case 29: q->id_len = 9; break; case 30: q->sep_uv = 1; break;
            case 31: q->op[0].dbd = 77; break; case 32: q->op[1].low = 1; break; case 33: break;
            }
            AwBuf b = { 0 }; aw_put_td(&b); aw_put_seq(&enc, &b); AwFrm fm; int ok = 0; AwBuf bb = { 0 };
            for (int t = 0; t < 8 && !ok; t++) {
                bb.n = 0; awb_put(&bb, b.p, b.n); aw_frm_default(&enc, &fm, 0); fm.frame_id = 1; put_frame(&enc, &fm, &bb, en_seed * 77 + t, 2000, 0);
                Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, bb.p, bb.n, dec_free_none, NULL);
                enum Dav1dEventFlags fl; Dav1dPicture p; memset(&p, 0, sizeof(p)); dav1d_send_data(c, &d); dav1d_data_unref(&d); int r = DAV1D_ERR(EAGAIN); for (int z = 0; z < 4 && r; z++) r = dav1d_get_picture(c, &p);
                if (!r) { ok = 1; pics++; dav1d_get_event_flags(c, &fl); if (k) { seen = fl; } else if (!(fl & DAV1D_EVENT_FLAG_NEW_SEQUENCE)) en_viol_("first sequence not reported"); dav1d_picture_unref(&p); }
            }
            awb_free(&b); awb_free(&bb);
        }
        en_evals++; en_nontrivial++;
        if (pics != 2) en_viol_("%d of 2 pictures", pics);
        else if (seen != want) en_viol_("event flags %x, expected %x", seen, want);
        dav1d_close(&c);
    }
}
/* malformed metadata is refused or ignored and leaves the values in force alone */
static void malformed(void) {
    for (int kind = 0; kind < 3; kind++) for (int len = 0; len < 30; len++) {
        if (!en_begin("malformed:%d:%d", kind, len)) continue;
        memset(&enc, 0, sizeof(enc)); seq_set(&enc.seq, 0, 0); Dav1dContext *c; Dav1dSettings s; dec_settings(&s, 1, 1); if (dav1d_open(&c, &s)) exit(2);
        AwBuf b = { 0 }, m = { 0 }; aw_put_seq(&enc, &b); aw_put_cll(&b, 11, 12); uint16_t pr[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 6 } }, wp[2] = { 7, 8 }; aw_put_mdcv(&b, pr, wp, 9, 10); uint8_t t1[2] = { 1, 2 }; aw_put_t35(&b, 0xb5, 0, t1, 2);
        if (kind == 0) aw_put_cll(&m, 1, 2); else if (kind == 1) aw_put_mdcv(&m, pr, wp, 1, 1); else aw_put_t35(&m, 0xff, 4, t1, 2);
        const int full = (int)m.n - 2; uint8_t pl[64]; memcpy(pl, m.p + 2, full);
        const int cutoff = kind == 2 ? 3 : full - 1; /* the shortest meaningful payload */
        AwBuf x = { 0 }; aw_obu(&x, 5, 0, 0, 0, 1, pl, len < full ? len : full);
        Dav1dData d; int refused = 0; for (int k = 0; k < 3; k++) {
            if (k == 2) { b.n = 0; AwFrm f; aw_frm_default(&enc, &f, 0); put_frame(&enc, &f, &b, en_seed * 77, 900, 0); }
            const AwBuf *q = k == 1 ? &x : &b; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, q->p, q->n, dec_free_none, NULL); if (dav1d_send_data(c, &d)) { refused |= k == 1; dav1d_data_unref(&d); }
        }
        Dav1dPicture p; memset(&p, 0, sizeof(p)); en_evals++; en_nontrivial++;
        if (dav1d_get_picture(c, &p)) en_viol_("no picture after a damaged metadata OBU");
        else {
            if (len < cutoff) {
                if (!p.content_light || p.content_light->max_content_light_level != 11 || p.content_light->max_frame_average_light_level != 12) en_viol_("content light level changed by a damaged OBU");
                if (!p.mastering_display || p.mastering_display->max_luminance != 9 || p.mastering_display->min_luminance != 10) en_viol_("mastering display changed by a damaged OBU");
                /* a refused packet is reported as an error, and takes the pending messages with it */
                if (p.n_itut_t35 > 1 || (!p.n_itut_t35 && !refused)) en_viol_("%zu T.35 messages", p.n_itut_t35);
            }
            for (size_t i = 0; i < p.n_itut_t35; i++) { volatile uint8_t z = 0; for (size_t j = 0; j < p.itut_t35[i].payload_size; j++) z += p.itut_t35[i].payload[j]; }
            dav1d_picture_unref(&p);
        }
        dav1d_close(&c); awb_free(&b); awb_free(&m); awb_free(&x);
    }
}
int main(int argc, char **argv) {
    en_init(argc, argv);
    /* frames by token; tile payloads that decode cleanly */
    AwEnc e; memset(&e, 0, sizeof(e)); seq_set(&e.seq, 0, 0);
    for (int k = 0; k < NTOK; k++) {
        AwFrm *f = &fr[k]; aw_frm_default(&e, f, k == K || k == HK ? 0 : 1);
        if (k == HK || k == H) { f->show = 0; f->refresh = 2; }
        if (k == W) { f->refresh = 0; f->size_override = 1; f->w = 24; f->h = 24; }
        if (k == I || k == H) { f->fg.apply = f->fg.update = 1; f->fg.seed = 5; f->fg.ny = 1; f->fg.y[0][1] = 40; }
    }
    /* the split frame: two tiles need two superblocks */
    fr[W].w = 32; fr[W].h = 72; fr[W].rw = 32; fr[W].rh = 72; fr[W].log2r = 1;
    AwRng r = { 0 };
    static const int probe[] = { K, I, H, W, X, HK, X, K, I };
    for (int t = 0; t < 200; t++) {
        r.s = en_seed * 991 + t; for (int i = 0; i < 2; i++) for (int j = 0; j < 3000; j++) pay[i][j] = (uint8_t)aw_rnd(&r);
        build(probe, 9, 0, 0); Dav1dSettings s; dec_settings(&s, 1, 1); Dav1dContext *c; if (dav1d_open(&c, &s)) exit(2); int n = 0;
        for (int i = 0; i < st.n; i++) { Dav1dData d; memset(&d, 0, sizeof(d)); dav1d_data_wrap(&d, st.k[i].p, st.k[i].n, dec_free_none, NULL); for (int z = 0; z < 20 && d.sz; z++) { int q = dav1d_send_data(c, &d); if (q && q != DAV1D_ERR(EAGAIN)) dav1d_data_unref(&d); Dav1dPicture p; memset(&p, 0, sizeof(p)); while (!dav1d_get_picture(c, &p)) { n++; dav1d_picture_unref(&p); memset(&p, 0, sizeof(p)); } } }
        dav1d_close(&c); if (n == st.ne) break; if (t == 199) { fprintf(stderr, "no payload decodes\n"); return 2; }
    }
    seq_changes(); malformed();
    static const int A[] = { K, HK, I, H, X, C, D, T, E, S, O, P, B, W }, A2[] = { K, I, H, X, C, T, S, B }, A3[] = { HK, I, X, T, B, S, C };
    for (int d = 1; d <= (en_quick ? 4 : 5); d++) all(A, NTOK, d, 1);
    if (en_quick) { all(A2, 8, 5, 1); all(A3, 7, 6, 1); } else { all(A2, 8, 6, 1); all(A3, 7, 7, 1); all(A2, 8, 7, 1); }
    for (int i = 0; i < NCFG; i++) if (ctx[i]) dav1d_close(&ctx[i]);
    return en_finish();
}

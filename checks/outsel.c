/* S10: output selection and order against an independent model of the output
 * process, for every sequence of frame kinds up to a depth. */
#include "streams.h"
#include "enumh.h"

/* ------------------------------------------------------------- part 1: one layer */
enum { A_KEY, A_KEYHID, A_NONREF, A_REFX, A_HID, A_HIDNS, A_INTRA, A_INTRAHID, A_SHOW0, A_SHOW1, A_SHOW2, A_SHOW3, A_SWITCH, A_NEWSEQ, A_SAMESEQ, A_NB };
static const char *const anm[] = { "key", "hiddenkey", "nonref", "inter", "hidden", "hiddennoshow", "intra", "hiddenintra", "show0", "show1", "show2", "show3", "switch", "newseq", "sameseq" };
typedef struct { int present, id, type, showable, seqgen, hdr_only, refresh; } Slot;
typedef struct { int id, type, seqgen; int64_t ts; } Out;
typedef struct { int threads, delay, invisible, dft, strict; } Cfg;

static uint64_t base_seed;
typedef struct { Pkts k; int ids[16], types[16], refresh[16], shown[16], gens[16], ex[16], n; int act[16]; } Hist;

/* writes the stream of a history */
static void build(const int *a, int n, Hist *h) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    memset(h, 0, sizeof(*h)); aw_seq_default(&e->seq, 16, 16);
    h->n = n;
    int gen = 0;
    for (int i = 0; i < n; i++) {
        b.n = 0; aw_put_td(&b);
        h->act[i] = a[i]; h->ids[i] = i + 1; h->ex[i] = -1;
        if (a[i] >= A_SHOW0 && a[i] <= A_SHOW3) {
            h->ex[i] = a[i] - A_SHOW0;
            aw_put_show_existing(e, h->ex[i], &b); pk_add(&h->k, &b); continue;
        }
        int type = 1;
        if (a[i] == A_KEY || a[i] == A_KEYHID || a[i] == A_NEWSEQ) type = 0;
        if (a[i] == A_INTRA || a[i] == A_INTRAHID) type = 2;
        if (a[i] == A_SWITCH) type = 3;
        if (a[i] == A_NEWSEQ) { gen++; e->seq.w = e->seq.h = gen & 1 ? 24 : 16; for (int j = 0; j < 8; j++) e->ref[j].valid = 0; }
        if (!i || a[i] == A_NEWSEQ || a[i] == A_SAMESEQ) aw_put_seq(e, &b);
        aw_frm_default(e, &f, type);
        f.order_hint = i + 1; f.yac = 60 + i * 9;
        switch (a[i]) {
        case A_KEYHID: f.show = 0; f.refresh = 2; break;
        case A_NONREF: f.refresh = 0; break;
        case A_REFX: case A_SAMESEQ: f.refresh = 1; break;
        case A_HID: f.show = 0; f.refresh = 4; break;
        case A_HIDNS: f.show = 0; f.showable = 0; f.refresh = 8; break;
        case A_INTRA: f.refresh = 16; break;
        case A_INTRAHID: f.show = 0; f.refresh = 4; break;
        }
        if (type == 1 || type == 3) { for (int j = 0; j < 7; j++) f.refidx[j] = (j * 3 + i) & 3; f.comp = 1; }
        h->types[i] = type; h->refresh[i] = f.refresh; h->shown[i] = f.show; h->gens[i] = gen;
        put_frame(e, &f, &b, base_seed * 1009 + i * 31 + a[i], 900, (i & 1) ? AW_SPLIT : 0);
        pk_add(&h->k, &b);
    }
    awb_free(&b); free(e);
}
/* the output process, from the specification and the documented settings */
static int model(const Hist *h, const Cfg *c, Out *o, int *nerr) {
    Slot s[8]; memset(s, 0, sizeof(s)); int n = 0; *nerr = 0;
    for (int i = 0; i < h->n; i++) {
        const int64_t ts = 1000 + i;
        if (h->ex[i] >= 0) {
            Slot *q = &s[h->ex[i]];
            if (!q->present) { ++*nerr; continue; }
            if (c->dft == DAV1D_DECODEFRAMETYPE_KEY && q->type != 0) continue;
            if (c->dft == DAV1D_DECODEFRAMETYPE_INTRA && (q->type == 1 || q->type == 3)) continue;
            if (q->hdr_only) { ++*nerr; continue; }
            if (c->strict && !q->showable) { ++*nerr; continue; }
            o[n++] = (Out){ q->id, q->type, q->seqgen, ts };
            if (q->type == 0) { q->showable = 0; Slot v = *q; for (int j = 0; j < 8; j++) s[j] = v; }
            continue;
        }
        if (h->act[i] == A_NEWSEQ) memset(s, 0, sizeof(s));
        const int t = h->types[i];
        int skip = 0;
        if (c->dft == DAV1D_DECODEFRAMETYPE_KEY) skip = t != 0;
        if (c->dft == DAV1D_DECODEFRAMETYPE_INTRA) skip = t == 1 || t == 3;
        if (c->dft == DAV1D_DECODEFRAMETYPE_REFERENCE) skip = t != 0 && !h->refresh[i];
        Slot v = { 1, h->ids[i], t, h->act[i] == A_HIDNS ? 0 : 1, h->gens[i], skip, h->refresh[i] };
        if (t == 0 && h->shown[i]) v.showable = 0;
        if (t == 1 || t == 3) {
            int miss = 0; for (int j = 0; j < 7; j++) if (!s[(j * 3 + i) & 3].present) miss = 1;
            if (miss) { ++*nerr; continue; }
        }
        if (!skip && (h->shown[i] || c->invisible)) o[n++] = (Out){ v.id, t, v.seqgen, ts };
        for (int j = 0; j < 8; j++) if (h->refresh[i] >> j & 1) s[j] = v;
    }
    return n;
}
typedef struct { Dav1dContext *c; } D;
static uint64_t idhash[64]; /* pixel hash per frame id (0: not known yet) */
typedef struct { int id, type, w; int64_t ts; uint64_t pix; int visible; } Got;
static int ngot, nerr_got; static Got got[64];
static int hget(Dav1dContext *c) {
    Dav1dPicture p; memset(&p, 0, sizeof(p));
    int r = dav1d_get_picture(c, &p);
    if (!r) {
        if (ngot < 64) got[ngot++] = (Got){ p.frame_hdr->frame_offset, p.frame_hdr->frame_type, p.p.w, p.m.timestamp, pic_pix_hash(&p), p.frame_hdr->show_frame };
        dav1d_picture_unref(&p);
    } else if (r != DAV1D_ERR(EAGAIN)) nerr_got++;
    return r;
}
static void decode(const Pkts *k, const Cfg *cf, int op, int all_layers) {
    Dav1dSettings s; Dav1dContext *c = NULL;
    dec_settings(&s, cf->threads, cf->delay);
    s.output_invisible_frames = cf->invisible; s.decode_frame_type = cf->dft; s.strict_std_compliance = cf->strict;
    s.operating_point = op; s.all_layers = all_layers;
    ngot = nerr_got = 0; en_evals++;
    if (dav1d_open(&c, &s)) { en_viol_("dav1d_open failed"); return; }
    for (int i = 0; i < k->n; i++) {
        Dav1dData d; memset(&d, 0, sizeof(d));
        if (dav1d_data_wrap(&d, k->v[i].p, k->v[i].n, dec_free_none, NULL)) break;
        d.m.timestamp = k->v[i].ts;
        for (int it = 0; d.sz && it < 100; it++) {
            int r = dav1d_send_data(c, &d);
            if (r < 0 && r != DAV1D_ERR(EAGAIN)) { nerr_got++; dav1d_data_unref(&d); }
            hget(c);
        }
        if (d.sz) { en_viol_("packet %d never accepted", i); dav1d_data_unref(&d); }
    }
    hget(c);
    for (int it = 0; it < 200; it++) if (hget(c) == DAV1D_ERR(EAGAIN)) break;
    dav1d_close(&c);
}
static const Cfg cfgs[] = {
    { 1, 1, 0, 0, 0 }, { 1, 1, 1, 0, 0 }, { 3, 3, 0, 0, 0 }, { 2, 1, 0, 0, 0 }, { 1, 1, 0, 1, 0 }, { 1, 1, 0, 2, 0 }, { 1, 1, 0, 3, 0 },
    { 2, 2, 1, 0, 0 }, { 3, 2, 0, 1, 0 }, { 2, 2, 0, 2, 0 }, { 4, 4, 1, 3, 0 },
};
static void compare(const Hist *h, const Cfg *cf, const char *nm) {
    Out o[64]; int ne; int n = model(h, cf, o, &ne);
    decode(&h->k, cf, 0, 1);
    char cs[96]; snprintf(cs, sizeof(cs), "threads=%d delay=%d invisible=%d frametypes=%d strict=%d", cf->threads, cf->delay, cf->invisible, cf->dft, cf->strict);
    for (int i = 0; i < n || i < ngot; i++) {
        if (i >= n) { en_viol_("%s: extra picture %d (frame %d at ts %lld)", cs, i, got[i].id, (long long)got[i].ts); return; }
        if (i >= ngot) { en_viol_("%s: picture %d (frame %d at ts %lld) missing: %d of %d delivered", cs, i, o[i].id, (long long)o[i].ts, ngot, n); return; }
        if (got[i].id != o[i].id || got[i].ts != o[i].ts || got[i].type != o[i].type || got[i].w != (o[i].seqgen & 1 ? 24 : 16)) {
            en_viol_("%s: picture %d is frame %d (type %d, ts %lld, width %d), expected frame %d (type %d, ts %lld)", cs, i, got[i].id, got[i].type, (long long)got[i].ts, got[i].w, o[i].id, o[i].type, (long long)o[i].ts); return;
        }
        uint64_t *r = &idhash[o[i].id];
        if (!*r) *r = got[i].pix;
        else if (*r != got[i].pix) { en_viol_("%s: picture %d (frame %d at ts %lld) has other content than when first delivered", cs, i, o[i].id, (long long)o[i].ts); return; }
    }
    if (ne != nerr_got) en_viol_("%s: %d errors reported, %d expected", cs, nerr_got, ne);
    if (n > 1) en_nontrivial++;
    uint64_t st = H0; for (int i = 0; i < n; i++) st = hu(st, o[i].id << 8 | o[i].type); en_seen(hu(st, ne));
    (void)nm;
}
static void run_hist(const int *a, int n, int ncfg) {
    char nm[256] = ""; for (int i = 0; i < n; i++) { if (i) strcat(nm, "-"); strcat(nm, anm[a[i]]); }
    if (!en_begin("seq:%s", nm)) return;
    Hist h; build(a, n, &h);
    memset(idhash, 0, sizeof(idhash));
    for (int c = 0; c < ncfg; c++) compare(&h, &cfgs[c], nm);
    en_sample("%s under %d settings: %d pictures", nm, ncfg, ngot);
    pk_free(&h.k);
}
static void seqs(int depth, int ncfg) {
    int a[16];
    for (int first = 0; first < 2; first++) {
        a[0] = first ? A_KEYHID : A_KEY;
        long tot = 1; for (int i = 1; i < depth; i++) tot *= A_NB;
        for (long x = 0; x < tot && !en_over(); x++) {
            long y = x; for (int i = 1; i < depth; i++) { a[i] = y % A_NB; y /= A_NB; }
            run_hist(a, depth, ncfg);
        }
    }
}
/* ------------------------------------------------------------- part 2: layers */
/* operating points: all; base spatial; base temporal; base of both */
static const int idcs[2][4] = { { 0x303, 0x103, 0x301, 0x101 }, { 0x703, 0x303, 0x701, 0x101 } };
typedef struct { int tid, mask, hid, sx; } Tu; /* sx: the temporal unit ends (1) or begins (2) by showing again the frame in slot 7 */
static void run_layers(const Tu *tu, int n, int three, int ext) {
    char nm[128] = ""; for (int i = 0; i < n; i++) { char b[32]; snprintf(b, sizeof(b), "-t%dm%dh%d%s", tu[i].tid, tu[i].mask, tu[i].hid, tu[i].sx == 2 ? "X" : tu[i].sx ? "x" : ""); strcat(nm, b); }
    if (!en_begin("layers%d%s%s", three, ext ? "" : "noext", nm)) return;
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f; Pkts k; memset(&k, 0, sizeof(k));
    struct { int id, tid, sid, shown, tu; } fr[32]; int nf = 0, slot7 = 1;
    aw_seq_default(&e->seq, 16, 16);
    e->seq.n_op = 4; for (int i = 0; i < 4; i++) { e->seq.op[i].idc = idcs[three][i]; e->seq.op[i].level = 0; }
    for (int i = 0; i < n; i++) {
        b.n = 0; aw_put_td(&b); if (!i) aw_put_seq(e, &b);
        for (int l = 0; l < 3; l++) {
            if ((tu[i].sx == 2 && l == 0) || (tu[i].sx == 1 && l == 2)) {
                const int sl = tu[i].sx == 2 ? 0 : 1 + three;
                AwBuf q = { 0 }; aw_put_show_existing(e, 7, &q);
                /* same OBU with a layer extension */
                awb_u8(&b, q.p[0] | 4); awb_u8(&b, tu[i].tid << 5 | sl << 3); awb_put(&b, q.p + 1, q.n - 1); awb_free(&q);
                fr[nf].id = slot7; fr[nf].tid = tu[i].tid; fr[nf].sid = sl; fr[nf].shown = 1; fr[nf].tu = i; nf++;
            }
            if (!(tu[i].mask >> l & 1)) continue;
            aw_frm_default(e, &f, nf ? 1 : 0);
            f.has_ext = ext; f.tid = tu[i].tid; f.sid = l; f.order_hint = nf + 1; f.yac = 40 + nf * 7;
            f.show = !(tu[i].hid >> l & 1); if (!nf) f.show = 1;
            if (nf) { f.refresh = 1 << l; for (int j = 0; j < 7; j++) f.refidx[j] = 0; if (tu[i].tid) f.refresh = 0; if (!f.show && !tu[i].tid && !l) { f.refresh = 128; slot7 = nf + 1; } }
            put_frame(e, &f, &b, base_seed * 77 + nf, 900, 0);
            fr[nf].id = nf + 1; fr[nf].tid = tu[i].tid; fr[nf].sid = l; fr[nf].shown = f.show; fr[nf].tu = i; nf++;
        }
        pk_add(&k, &b);
    }
    for (int op = 0; op < 5; op++) for (int all = 0; all < 2; all++) for (int th = 0; th < 3; th++) {
        const int idc = idcs[three][op < 4 ? op : 0]; /* an operating point beyond the last means the first */
        int exp[64], ne = 0, maxs = 0;
        for (int s = 0; s < 4; s++) if (idc >> (8 + s) & 1) maxs = s;
        int last = -1, lasttu = -1;
        for (int i = 0; i < nf; i++) {
            if (ext && (!(idc >> fr[i].tid & 1) || !(idc >> (8 + fr[i].sid) & 1))) continue;
            if (!fr[i].shown) continue;
            if (all || !maxs) { exp[ne++] = fr[i].id; continue; }
            if (last >= 0 && lasttu != fr[i].tu) exp[ne++] = fr[last].id;
            last = i; lasttu = fr[i].tu;
        }
        if (last >= 0) exp[ne++] = fr[last].id;
        const Cfg cf = { 1 + th, 1 + th, 0, 0, 0 };
        decode(&k, &cf, op, all);
        int bad = ne != ngot; for (int i = 0; !bad && i < ne; i++) bad = exp[i] != got[i].id;
        if (bad) {
            char t[256] = ""; for (int i = 0; i < ngot; i++) { char q[8]; snprintf(q, sizeof(q), " %d", got[i].id); strcat(t, q); }
            strcat(t, " expected"); for (int i = 0; i < ne; i++) { char q[8]; snprintf(q, sizeof(q), " %d", exp[i]); strcat(t, q); }
            en_viol_("operating point %d all_layers=%d threads=delay=%d: frames%s", op, all, 1 + th, t);
        }
        if (nerr_got) en_viol_("operating point %d all_layers=%d threads=%d: %d errors", op, all, 1 + th, nerr_got);
        if (ne) en_nontrivial++;
        uint64_t st = hu(H0, op << 1 | all); for (int i = 0; i < ne; i++) st = hu(st, exp[i]); en_seen(st);
    }
    free(e); awb_free(&b); pk_free(&k);
}
static void layers(int depth) {
    for (int three = 0; three < 2; three++) {
        const int nm = three ? 7 : 3;
        long per = 2 * nm * 2, tot = 1; for (int i = 0; i < depth; i++) tot *= per;
        for (long x = 0; x < tot && !en_over(); x++) {
            Tu t[8]; long y = x; int ok = 1;
            for (int i = 0; i < depth; i++) {
                long z = y % per; y /= per;
                t[i].tid = z & 1; t[i].mask = 1 + (z >> 1) % nm; t[i].sx = 0; t[i].hid = (z >> 1) / nm ? (t[i].mask & (three ? 4 : 2) ? (three ? 4 : 2) : 1) : 0;
                if (!i && (t[i].tid || !(t[i].mask & 1) || t[i].hid)) ok = 0;
            }
            if (ok) run_layers(t, depth, three, 1);
            if (ok && depth >= 2) for (int sx = 1; sx <= 2; sx++) { /* the shown-again frame stands for the base or the highest layer */
                int hid = 0; for (int j = 1; j + 1 < depth; j++) hid |= !t[j].tid && (t[j].mask & t[j].hid & 1);
                if (!hid || (t[depth - 1].mask & (sx == 2 ? 1 : three ? 4 : 2))) continue;
                t[depth - 1].sx = sx; run_layers(t, depth, three, 1); t[depth - 1].sx = 0; }
            if (ok && depth <= 2) run_layers(t, depth, three, 0);
        }
    }
}
int main(int argc, char **argv) {
    en_init(argc, argv); base_seed = en_seed;
    for (int d = 1; d <= 3; d++) seqs(d, sizeof(cfgs) / sizeof(*cfgs));
    layers(1); layers(2);
    if (en_quick) { seqs(4, 4); layers(3); seqs(5, 1); }
    else { seqs(4, sizeof(cfgs) / sizeof(*cfgs)); layers(3); layers(4); seqs(5, sizeof(cfgs) / sizeof(*cfgs)); seqs(6, 1); }
    return en_finish();
}

/* S20: what a frame decodes to depends on its own data and the reference state
 * it names, on nothing else.  Every history of frame kinds up to a depth is
 * written in several ways that the specification makes equivalent (other slot
 * numbers, copies in several slots, slots reused as soon as they are dead, a
 * hidden key frame shown later instead of a shown one, unrelated frames in
 * between, other OBU packaging, explicit instead of short reference signalling)
 * and must decode to the same pictures. */
#include "streams.h"
#include "enumh.h"
enum { K_P, K_M, K_N, K_S, K_T, K_H, K_I, K_D, K_G, K_F, K_Z, K_X, K_E, K_C, K_R, K_Q, K_Y, K_NB };
static const char kn[] = "PMNSTHIDGFZXECRQY";
enum { KEY_PLAIN, KEY_NOUPD, KEY_SEG, KEY_NB }; /* kinds of key frames (k[0]; later ones rotate) */
enum { V_CANON, V_ROT1, V_ROT3, V_ROT6, V_REV, V_DUPHI, V_REUSE, V_KEYHID, V_KEYHID2, V_PKG, V_OBUS, V_EXPL, V_PRIM, V_JUNK0, V_NB = V_JUNK0 + 6 };
static const char *const vn[] = { "canonical slots", "slots rotated by 1", "slots rotated by 3", "slots rotated by 6", "slots reversed", "copies in all free slots", "slots reused when dead",
    "hidden key frame shown by show_existing_frame", "the same, from slot 5", "frame header and tile group OBUs", "padding, unknown and metadata OBUs in between", "explicit references", "contexts taken from where an unadapted frame took them",
    "unrelated shown inter frames", "unrelated hidden frames", "unrelated intra frames", "unrelated segmented frames", "unrelated scaled frames", "unrelated frames in dead slots" };
#define MAXF 10
typedef struct { int kind, refs[7], primary, live; } Fr;
static int owner[8]; /* frame id in each slot, -1 none */
static int nfr, lastuse[MAXF];
static int pick_from;
static int pick(int id, int hi) { int r = -1; for (int j = 0; j < 8; j++) { const int i = (j + pick_from) & 7; if (owner[i] == id && (r < 0 || hi)) r = i; } return r; }
static void plan(const int *k, int n, Fr *f) {
    /* frame ids: 0 the key frame, then one per action that codes a frame */
    int id = 0, prev = 0, prev2 = 0, hid = -1, first = 0; int lastid[MAXF];
    memset(f, 0, sizeof(Fr) * MAXF);
    for (int i = 0; i < n; i++) {
        f[i].kind = k[i]; for (int j = 0; j < 7; j++) f[i].refs[j] = 0; f[i].primary = 7;
        lastid[i] = id;
        if (i == 0) { f[0].live = 0; continue; }
        if (k[i] == K_X) { f[i].refs[0] = hid; continue; }
        switch (k[i]) {
        case K_M: case K_C: for (int j = 0; j < 7; j++) f[i].refs[j] = j & 1 ? prev : prev2; f[i].primary = 1; break;
        case K_N: for (int j = 0; j < 7; j++) f[i].refs[j] = j == 3 ? first : prev; f[i].primary = 3; break;
        case K_I: case K_Y: break;
        default: for (int j = 0; j < 7; j++) f[i].refs[j] = j > 4 ? prev2 : j == 4 ? first : prev; f[i].primary = k[i] == K_E || k[i] == K_S ? 7 : 0;
        }
        id++; f[i].live = id; prev2 = prev; prev = id; if (k[i] == K_H) hid = id; if (k[i] == K_Y) { prev2 = first = id; hid = -1; }
    }
    (void)lastid;
    nfr = id + 1;
    for (int i = 0; i < MAXF; i++) lastuse[i] = -1;
    for (int i = 0; i < n; i++) if (i && k[i] == K_X) lastuse[f[i].refs[0] < 0 ? 0 : f[i].refs[0]] = i;
        else if (i && k[i] != K_I && k[i] != K_Y) for (int j = 0; j < 7; j++) lastuse[f[i].refs[j]] = i;
}
static int nprim;
/* no parameters other than the entropy contexts are inherited from frame id */
static int plainkey(const int *k, const Fr *fr, int n, int id) { for (int j = 0; j < n; j++) if ((!j || k[j] == K_Y) && fr[j].live == id) return (j ? (k[0] + j) % KEY_NB : k[0]) != KEY_SEG; return 0; }
static int refidx_explicit[MAXF][7], explicit_known[MAXF];
static int build(const int *k, int n, const Fr *fr, uint64_t seed, int v, int sshort, Pkts *out) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    memset(out, 0, sizeof(*out)); for (int i = 0; i < 8; i++) owner[i] = -1;
    pick_from = v == V_KEYHID;
    aw_seq_default(&e->seq, 16, 128); e->seq.fg = 1;
    for (int i = 0; i < n; i++) {
        b.n = 0; aw_put_td(&b); if (!i) aw_put_seq(e, &b);
        if (v == V_OBUS) {
            aw_obu(&b, 15, 0, 0, 0, 1, (const uint8_t *)"padding", 7); aw_obu(&b, 9, 0, 0, 0, 1, (const uint8_t *)"xx", 2);
            aw_put_cll(&b, 100 + i, 7); aw_obu(&b, 5, 0, 0, 0, 1, (const uint8_t *)"\x09z\x80", 3);
        }
        /* unrelated frames */
        for (int jj = 0; v >= V_JUNK0 && i && jj < 1 + (i == 2); jj++) {
            const int jk = v - V_JUNK0;
            aw_frm_default(e, &f, jk == 2 ? 2 : 1);
            f.refresh = 0; f.order_hint = (i * 5 + jj + 40) & 127; f.show = jk != 1; f.showable = 0;
            if (jk != 2) { for (int j = 0; j < 7; j++) f.refidx[j] = (j + i) & 7; f.comp = 1; f.use_refmvs = 1; f.primary = (i + jj) % 7; f.lr[0] = 2; }
            if (jk == 2) { f.refresh = 0; }
            if (jk == 3) { f.seg = 1; f.seg_map = 1; f.seg_data = 1; f.seg_en[2] = 1; f.seg_val[2][0] = 33; f.dq = 1; f.dq_res = 1; }
            if (jk == 4) { f.size_override = 1; f.w = 20; f.h = 100; f.rw = f.w; f.rh = f.h; }
            if (jk == 5) { for (int s = 0; s < 8; s++) { const int o = owner[s]; int other = 0; for (int t = 0; t < 8; t++) if (t != s && owner[t] == o) other = 1; if (other || lastuse[o] < i) { f.refresh |= 1 << s; owner[s] = -2; } } }
            st_grain(&f, 999 + i);
            AwBuf q = { 0 }; aw_put_td(&q); put_frame(e, &f, &q, seed * 977 + i * 7 + jj, payload_len(&f, f.w, f.h), 0);
            if (i == 1 && jk == 0) { AwBuf w = { 0 }; awb_put(&w, q.p, q.n); awb_put(&w, b.p + 2, b.n - 2); awb_free(&b); b = w; /* same temporal unit as the next frame */ }
            else { pk_add(out, &q); out->v[out->n - 1].ts = 9000 + i; }
            awb_free(&q);
        }
        if (i && k[i] == K_X) {
            if (fr[i].refs[0] < 0) { free(e); awb_free(&b); return -1; }
            aw_put_show_existing(e, pick(fr[i].refs[0], v == V_DUPHI), &b);
            pk_add(out, &b); out->v[out->n - 1].ts = i; continue;
        }
        const int id = fr[i].live;
        const int key = i == 0 || k[i] == K_Y;
        aw_frm_default(e, &f, key ? 0 : k[i] == K_I ? 2 : 1);
        f.order_hint = i + 1; st_grain(&f, 321 + i * 5); f.yac = 70 + i * 11; f.primary = fr[i].primary;
        int hi = v == V_DUPHI;
        if (!key && k[i] != K_I) for (int j = 0; j < 7; j++) f.refidx[j] = pick(fr[i].refs[j], hi);
        if (key) {
            const int kk = i ? (k[0] + i) % KEY_NB : k[0];
            f.primary = 7;
            if (kk == KEY_NOUPD) f.no_end_update = 1;
            if (kk == KEY_SEG) { f.seg = 1; f.seg_map = 1; f.seg_data = 1; f.seg_en[1] = 1; f.seg_val[1][0] = 15; f.seg_en[2] = 1; f.seg_val[2][0] = -15; }
        } else switch (k[i]) {
        case K_M: f.comp = 1; f.use_refmvs = 1; break;
        case K_N: f.no_end_update = 1; f.use_refmvs = 1; f.comp = 1; break;
        case K_S: f.seg = 1; f.seg_map = 1; f.seg_data = 1; f.seg_en[1] = 1; f.seg_val[1][0] = 25; f.seg_en[2] = 3; f.seg_val[2][0] = -20; f.seg_val[2][1] = 9; f.seg_en[4] = 1; f.seg_val[4][0] = 40; break;
        case K_T: f.seg = 1; f.seg_map = 1; f.seg_temporal = 1; f.seg_data = 0; break;
        case K_Q: f.seg = 1; f.seg_map = 0; f.seg_data = 1; f.seg_en[0] = 1; f.seg_val[0][0] = 17; f.seg_en[3] = 1; f.seg_val[3][0] = 60; break;
        case K_H: f.show = 0; f.comp = 1; break;
        case K_D: f.lf_de = 1; f.lf_du = 1; f.lf_rmask = 0x12; f.lf_r[1] = 9; f.lf_r[4] = -9; f.lf_mmask = 1; f.lf_m[0] = 6; break;
        case K_G: f.gm_type[0] = 1; f.gm[0][0] = 3 << 13; f.gm[0][1] = -(5 << 13); f.gm_type[2] = 2; f.gm[2][2] = (1 << 16) + 700; f.gm[2][3] = 300; f.gm[2][4] = -300; f.gm[2][5] = (1 << 16) + 700; break;
        case K_F: f.fg.update = 0; f.fg.ref_slot = f.refidx[0]; f.fg.seed = 777 + i; break;
        case K_Z: f.size_override = 1; f.w = 24; f.h = 104; f.rw = 24; f.rh = 104; break;
        case K_E: f.err_res = 1; f.primary = 7; f.disable_cdf_update = 1; break;
        case K_C: f.lr[0] = 2; f.lr[1] = 1; f.cdef_bits = 1; f.cdef_y[1] = 0x23; f.use_refmvs = 1; break;
        case K_R: f.log2r = 1; f.ctx_tile = 1; f.comp = 1; f.use_refmvs = 1; break;
        case K_P: break;
        }
        /* slots to refresh */
        int mask = 0, sl = id & 7;
        if (key) mask = 0xff;
        else {
            if (v == V_ROT1) sl = (id + 1) & 7; else if (v == V_ROT3) sl = (id + 3) & 7; else if (v == V_ROT6) sl = (id + 6) & 7; else if (v == V_REV) sl = 7 - id;
            if (v == V_REUSE) for (sl = 0; sl < 7; sl++) { int others = 0; for (int t = 0; t < 8; t++) if (t != sl && owner[t] == owner[sl]) others = 1; if (others || lastuse[owner[sl]] < i || (lastuse[owner[sl]] == i && 1)) break; }
            mask = 1 << sl;
            if (v == V_DUPHI) for (int s = 0; s < 8; s++) { int others = 0; for (int t = 0; t < 8; t++) if (t != s && !(mask >> t & 1) && owner[t] == owner[s]) others = 1; if (others || lastuse[owner[s]] <= i) mask |= 1 << s; }
            if (k[i] == K_I && mask == 0xff) mask = 0x7f;
        }
        f.refresh = mask;
        int keyslot = -1;
        if (key && (v == V_KEYHID || v == V_KEYHID2)) { keyslot = v == V_KEYHID ? 0 : 5; f.show = 0; f.showable = 1; f.err_res = 1; f.refresh = mask = 1 << keyslot; }
        if (sshort && i > 1 && k[i] == K_M) {
            if (v == V_EXPL) { for (int j = 0; j < 7; j++) f.refidx[j] = refidx_explicit[i][j]; }
            else { f.short_sig = 1; f.refidx[0] = pick(fr[i].refs[0], 0); f.refidx[3] = pick(fr[i].refs[3], 0); if (f.refidx[0] == f.refidx[3]) f.refidx[3] = (f.refidx[0] + 1) & 7; }
        }
        if (v == V_PRIM && !key && f.primary == 0 && (k[i] == K_P || k[i] == K_H || k[i] == K_R)) {
            /* reference 0 is a frame that left the contexts it loaded as they were: load them from its own source */
            int src = -1; for (int j = 0; j < i; j++) if (j && k[j] == K_N && fr[j].live == fr[i].refs[0]) src = fr[j].refs[3];
            if (src >= 0 && src == fr[i].refs[4] && plainkey(k, fr, i, src)) { f.primary = 4; nprim++; }
        }
        const int mode = v == V_PKG ? AW_SPLIT | AW_TG1 | (i & 1 ? AW_REDUND : 0) : 0;
        put_frame(e, &f, &b, seed * 131 + i, payload_len(&f, f.w, f.h), mode);
        if (sshort && v == V_CANON) memcpy(refidx_explicit[i], e->cur.refidx, sizeof(int) * 7);
        for (int s = 0; s < 8; s++) if (mask >> s & 1) owner[s] = id;
        if (keyslot >= 0) {
            aw_put_show_existing(e, keyslot, &b);
            for (int s = 0; s < 8; s++) owner[s] = id;
        }
        if (v == V_OBUS) aw_obu(&b, 15, 0, 0, 0, 1, (const uint8_t *)"end", 3);
        pk_add(out, &b); out->v[out->n - 1].ts = i;
    }
    free(e); awb_free(&b);
    return 0;
}
typedef struct { uint64_t h; int64_t ts; int oh; } R;
static int nres, nerr; static R res[64];
static void get_all(Dav1dContext *c, int until) {
    for (int e = 0; e < until;) {
        Dav1dPicture p; memset(&p, 0, sizeof(p)); int r = dav1d_get_picture(c, &p);
        if (!r) { if (nres < 64) res[nres++] = (R){ pic_pix_hash(&p), p.m.timestamp, p.frame_hdr->frame_offset }; dav1d_picture_unref(&p); }
        else if (r == DAV1D_ERR(EAGAIN)) e++; else nerr++;
    }
}
static void decode(const Pkts *k, int t, int d) {
    Dav1dSettings s; Dav1dContext *c = NULL; dec_settings(&s, t, d); nres = nerr = 0; en_evals++;
    if (dav1d_open(&c, &s)) { en_viol_("dav1d_open failed"); exit(0); }
    for (int i = 0; i < k->n; i++) {
        Dav1dData x; memset(&x, 0, sizeof(x)); dav1d_data_wrap(&x, k->v[i].p, k->v[i].n, dec_free_none, NULL); x.m.timestamp = k->v[i].ts;
        for (int it = 0; x.sz && it < 100; it++) { int r = dav1d_send_data(c, &x); if (r && r != DAV1D_ERR(EAGAIN)) { nerr++; dav1d_data_unref(&x); } get_all(c, 1); }
    }
    get_all(c, 2); dav1d_close(&c);
    int m = 0; for (int i = 0; i < nres; i++) if (res[i].ts < 9000 && res[i].oh < 40) res[m++] = res[i]; /* the unrelated frames have order hints from 40 */
    nres = m;
}
static void history(const int *k, int n, int sshort) {
    char nm[64] = ""; for (int i = 1; i < n; i++) nm[i] = kn[k[i]]; nm[0] = '0' + k[0];
    if (!en_begin("hist:%s%s", nm, sshort ? ",short" : "")) return;
    Fr fr[MAXF]; plan(k, n, fr);
    R ref[64]; int nref = 0; uint64_t seed = en_seed * 7 + 3;
    Pkts pk;
    if (build(k, n, fr, seed, V_CANON, sshort, &pk)) return; /* shows a frame that does not exist */
    for (int t = 0;; t++, seed += 1000) {
        if (t) build(k, n, fr, seed, V_CANON, sshort, &pk);
        decode(&pk, 1, 1); pk_free(&pk);
        if (!nerr || t == 20) break;
    }
    if (nerr) { en_viol_("a valid stream does not decode (%d errors)", nerr); return; }
    int want = 0; for (int i = 0; i < n; i++) want += k[i] != K_H || !i;
    if (nres != want) en_viol_("%d pictures instead of %d", nres, want);
    nref = nres; memcpy(ref, res, sizeof(ref));
    for (int i = 0; i < nref; i++) en_seen(hu(ref[i].h, i));
    static const int td[4][2] = { { 2, 2 }, { 3, 3 }, { 2, 1 }, { 4, 2 } };
    unsigned hsh = 0; for (int i = 0; i < n; i++) hsh = hsh * 31 + k[i];
    for (int v = sshort ? V_EXPL : 1; v < (sshort ? V_EXPL + 1 : V_NB); v++) {
        if (v == V_EXPL && !sshort) continue;
        nprim = 0; if (build(k, n, fr, seed, v, sshort, &pk)) continue;
        if (v == V_PRIM && !nprim) { pk_free(&pk); continue; }
        for (int mt = 0; mt < 2; mt++) {
            if (mt && en_quick && (hsh + v) % 5) continue;
            const int *cf = td[(hsh + v) & 3];
            decode(&pk, mt ? cf[0] : 1, mt ? cf[1] : 1);
            for (int i = 0; i < nref || i < nres; i++) {
                if (i >= nref || i >= nres) { en_viol_("%s%s: %d pictures instead of %d (%d errors)", vn[v], mt ? ", threads" : "", nres, nref, nerr); break; }
                if (ref[i].h != res[i].h || ref[i].ts != res[i].ts) { en_viol_("%s%s: picture %d (timestamp %lld) differs", vn[v], mt ? ", threads" : "", i, (long long)ref[i].ts); break; }
            }
            if (nerr) en_viol_("%s%s: %d errors", vn[v], mt ? ", threads" : "", nerr);
            if (nref > 2) en_nontrivial++;
        }
        pk_free(&pk);
    }
    en_sample("%s: %d pictures", en_case, nref);
}
static void seqs(int depth, int sshort) {
    int k[MAXF]; long tot = 1; for (int i = 1; i < depth; i++) tot *= K_NB;
    for (k[0] = 0; k[0] < KEY_NB; k[0]++) for (long x = 0; x < tot && !en_over(); x++) {
        long y = x; int ok = !sshort;
        for (int i = 1; i < depth; i++) { k[i] = y % K_NB; y /= K_NB; if (i > 1 && k[i] == K_M) ok = 1; }
        if (ok) history(k, depth, sshort);
    }
}
int main(int argc, char **argv) {
    en_init(argc, argv);
    for (int d = 2; d <= (en_quick ? 4 : 5); d++) { seqs(d, 0); if (d > 2) seqs(d, 1); }
    return en_finish();
}

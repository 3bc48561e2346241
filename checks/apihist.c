/* API-history enumerations on the real decoder:
 *   PART 6: packetization and call patterns (S06)
 *   PART 4: flush at every point of every history (S04)
 *   PART 7: every single damage of a stream, then recovery (S07)
 *   PART 15: frame delay (S15) */
#include "streams.h"
#include "enumh.h"

static const struct { int t, d; } TD[] = { { 1, 1 }, { 2, 2 }, { 3, 3 }, { 2, 1 }, { 4, 2 } };
enum { NTD = 5 };

/* ---- OBUs of a packet list */
typedef struct { const uint8_t *p; size_t n; int type, pkt; } Obu;
static int split(const Pkts *k, Obu *o) {
    int m = 0;
    for (int i = 0; i < k->n; i++) {
        size_t x = 0;
        while (x < k->v[i].n) {
            const uint8_t *p = k->v[i].p + x; size_t h = 1 + (p[0] >> 2 & 1), len = 0; int sh = 0;
            if (p[0] & 2) { uint8_t b; do { b = p[h++]; len |= (size_t)(b & 127) << sh; sh += 7; } while (b & 128); }
            else len = k->v[i].n - x - h;
            o[m++] = (Obu){ p, h + len, p[0] >> 3 & 15, i };
            x += h + len;
        }
    }
    return m;
}
/* ---- results */
typedef struct { uint64_t h; int64_t ts; } R;
static R res[256]; static int nres, nerr; static int64_t err_ts[256];
static uint64_t pic_h(const Dav1dPicture *p) {
    Dav1dPicture q = *p; memset(&q.m, 0, sizeof(q.m));
#if PART == 7
    /* damaged data may parse as a metadata OBU, which stays in force for the sequence */
    q.content_light = NULL; q.mastering_display = NULL; q.itut_t35 = NULL; q.n_itut_t35 = 0;
#endif
    return pic_hash(&q);
}
static int get1(Dav1dContext *c) {
    Dav1dPicture p; memset(&p, 0, sizeof(p));
    int r = dav1d_get_picture(c, &p);
    if (!r) {
        if (!p.data[0]) en_viol_("retrieval succeeded without a picture");
        if (nres < 256) res[nres++] = (R){ pic_h(&p), p.m.timestamp };
        dav1d_picture_unref(&p);
    } else {
        if (p.data[0]) en_viol_("retrieval returned %d but filled in a picture", r);
        if (r != DAV1D_ERR(EAGAIN)) {
            Dav1dDataProps m; memset(&m, 0, sizeof(m));
            if (!dav1d_get_decode_error_data_props(c, &m)) { if (nerr < 256) err_ts[nerr] = m.timestamp; dav1d_data_unref(&(Dav1dData){ .m = m }); }
            nerr++;
        }
    }
    return r;
}
static void drain(Dav1dContext *c) { int e = 0; for (int i = 0; i < 600 && e < 2; i++) e = get1(c) == DAV1D_ERR(EAGAIN) ? e + 1 : 0; }
static int freed_n; static void count_free(const uint8_t *d, void *k) { (void)d; (void)k; __atomic_add_fetch(&freed_n, 1, __ATOMIC_SEQ_CST); }
/* g: how many retrievals after the packet (3 = until EAGAIN) */
static int put(Dav1dContext *c, const uint8_t *p, size_t n, int64_t ts, int g) {
    Dav1dData d; memset(&d, 0, sizeof(d));
    if (dav1d_data_wrap(&d, p, n, count_free, NULL)) { en_viol_("dav1d_data_wrap failed"); return -1; }
    d.m.timestamp = ts; d.m.duration = 3; d.m.offset = ts * 10;
    int rounds = 0, ret = 0;
    for (;;) {
        const Dav1dData before = d;
        int r = dav1d_send_data(c, &d);
        if (!r) {
            if (d.sz || d.data) en_viol_("send returned 0 but left data with the caller");
            break;
        }
        if (d.data != before.data || d.sz != before.sz || d.ref != before.ref || d.m.timestamp != ts) en_viol_("send returned %d but changed the caller's data", r);
        if (r != DAV1D_ERR(EAGAIN)) {
            Dav1dDataProps m; memset(&m, 0, sizeof(m));
            if (!dav1d_get_decode_error_data_props(c, &m)) { if (nerr < 256) err_ts[nerr] = m.timestamp; dav1d_data_unref(&(Dav1dData){ .m = m }); }
            nerr++; dav1d_data_unref(&d); ret = r; break;
        }
        if (++rounds > 300) { en_viol_("packet with timestamp %lld never accepted", (long long)ts); dav1d_data_unref(&d); ret = -1; break; }
        get1(c);
    }
    if (g == 3) { for (int i = 0; i < 300; i++) if (get1(c) == DAV1D_ERR(EAGAIN)) break; }
    else for (int i = 0; i < g; i++) get1(c);
    return ret;
}
static Dav1dContext *open_td(int td, int layers) {
    Dav1dSettings s; Dav1dContext *c = NULL; dec_settings(&s, TD[td].t, TD[td].d);
    if (layers) s.all_layers = 0;
    nres = nerr = 0; freed_n = 0; en_evals++;
    if (dav1d_open(&c, &s)) { en_viol_("dav1d_open failed"); exit(0); }
    return c;
}
static void cmp(const R *e, int n, const char *what, int with_ts) {
    if (n > 1) en_nontrivial++;
    for (int i = 0; i < n || i < nres; i++) {
        if (i >= nres) { en_viol_("%s: %d pictures instead of %d", what, nres, n); return; }
        if (i >= n) { en_viol_("%s: an extra picture (timestamp %lld)", what, (long long)res[i].ts); return; }
        if (e[i].h != res[i].h) { en_viol_("%s: picture %d differs", what, i); return; }
        if (with_ts && e[i].ts != res[i].ts) { en_viol_("%s: picture %d has timestamp %lld instead of %lld", what, i, (long long)res[i].ts, (long long)e[i].ts); return; }
    }
}

/* random tile data is not always valid (intra block copy vectors): first seed whose stream decodes cleanly */
static uint64_t clean_seed(int st, int frames, uint64_t seed) {
    for (int t = 0; t < 60; t++, seed += 1000) {
        Pkts k; st_build(st, frames - 1, seed, &k);
        Dav1dContext *c = open_td(0, 0);
        for (int i = 0; i < k.n; i++) put(c, k.v[i].p, k.v[i].n, i, 3);
        drain(c); dav1d_close(&c); pk_free(&k);
        if (!nerr && nres) return seed;
    }
    return seed;
}

/* =============================================================== S06 */
static void part6_stream(int st, int frames, uint64_t seed, int maxfull, int npat) {
    seed = clean_seed(st, frames, seed);
    Pkts k; st_build(st, frames - 1, seed, &k);
    Obu o[128]; const int m = split(&k, o);
    /* reference: one OBU per packet, single-threaded */
    R ref[64]; int nref;
    Dav1dContext *c = open_td(0, 0);
    for (int i = 0; i < m; i++) put(c, o[i].p, o[i].n, i, 3);
    drain(c); dav1d_close(&c);
    nref = nres; memcpy(ref, res, sizeof(R) * nres);
    if (nerr || !nref) { snprintf(en_case, sizeof(en_case), "cut:%s", st_name[st]); en_viol_("the intact stream does not decode (%d errors)", nerr); return; }
    for (long x = 0; x < (m - 1 <= maxfull ? 1L << (m - 1) : (long)m * m * 2); x++) {
        uint8_t cut[128] = { 0 }; /* cut before OBU i */
        if (m - 1 <= maxfull) for (int i = 1; i < m; i++) cut[i] = x >> (i - 1) & 1;
        else { /* at most two cuts, or at most two joins */
            const int joins = x & 1, a = (x >> 1) % m, b = (x >> 1) / m; if (b > a) continue;
            for (int i = 1; i < m; i++) cut[i] = joins;
            if (a) cut[a] = !joins;
            if (b) cut[b] = !joins;
        }
        char cs[140]; int z = 0; for (int i = 0; i < m; i++) { if (cut[i]) cs[z++] = '|'; cs[z++] = 'o'; } cs[z] = 0;
        if (!en_begin("cut:%s,%d,%llu:%s", st_name[st], frames, (unsigned long long)seed, cs)) continue;
        /* packets */
        int pk_of[128], np = 0; size_t off[129]; static uint8_t buf[1 << 20]; size_t len = 0;
        for (int i = 0; i < m; i++) { if (!i || cut[i]) off[np++] = len; pk_of[i] = np - 1; memcpy(buf + len, o[i].p, o[i].n); len += o[i].n; }
        off[np] = len;
        R e[64]; for (int i = 0; i < nref; i++) e[i] = (R){ ref[i].h, pk_of[ref[i].ts] };
        for (int td = 0; td < NTD; td++) {
            if (np <= 3) { /* all words of retrieval counts */
                for (int w = 0, tot = np == 1 ? 4 : np == 2 ? 16 : 64; w < tot; w++) {
                    c = open_td(td, 0); int y = w;
                    for (int i = 0; i < np; i++, y /= 4) put(c, buf + off[i], off[i + 1] - off[i], i, y % 4);
                    drain(c); dav1d_close(&c);
                    char t[64]; snprintf(t, sizeof(t), "threads=%d delay=%d retrievals word %d", TD[td].t, TD[td].d, w);
                    cmp(e, nref, t, 1); if (nerr) en_viol_("%s: %d errors", t, nerr);
                    if (freed_n != np) en_viol_("%s: %d of %d packets released", t, freed_n, np);
                }
            } else for (int pat = 0; pat < npat + np; pat++) {
                if (pat >= npat && (x % 7)) break;
                c = open_td(td, 0);
                for (int i = 0; i < np; i++) put(c, buf + off[i], off[i + 1] - off[i], i, pat < npat ? (pat + 1) % 4 : i == pat - npat ? (int)(x / 7 % 3 == 0 ? 0 : x / 7 % 3 + 1) : 1);
                drain(c); dav1d_close(&c);
                char t[64]; snprintf(t, sizeof(t), "threads=%d delay=%d retrieval pattern %d", TD[td].t, TD[td].d, pat);
                cmp(e, nref, t, 1); if (nerr) en_viol_("%s: %d errors", t, nerr);
                if (freed_n != np) en_viol_("%s: %d of %d packets released", t, freed_n, np);
            }
        }
        en_sample("%s", en_case);
        if (en_over()) break;
    }
    pk_free(&k);
}
static void part6(void) {
    for (int f = 2; f <= (en_quick ? 4 : 6); f++)
        for (int st = 0; st < ST_NB; st++) part6_stream(st, f, en_seed + f, en_quick ? 8 : 12, en_quick ? 2 : 4);
    if (!en_quick) for (int st = 0; st < ST_NB; st++) part6_stream(st, 4, en_seed + 77, 14, 4);
}

/* =============================================================== S04 */
/* decode stream b with a fresh decoder */
static int fresh(const Pkts *b, int layers, R *e) {
    Dav1dContext *c = open_td(0, layers);
    for (int i = 0; i < b->n; i++) put(c, b->v[i].p, b->v[i].n, b->v[i].ts, 1);
    drain(c); dav1d_close(&c);
    memcpy(e, res, sizeof(R) * nres);
    if (nerr) en_viol_("the intact stream does not decode");
    return nres;
}
static Pkts deep(const Pkts *k, int64_t ts0) { Pkts r = { 0 }; for (int i = 0; i < k->n; i++) { AwBuf b = { k->v[i].p, k->v[i].n, 0 }; pk_add(&r, &b); r.v[i].ts = ts0 + i; } return r; }
/* a prefix with everything that leaves state behind */
static void add_extras(Pkts *k, int kind) {
    if (!kind) return;
    AwBuf b = { 0 };
    static const uint16_t prim[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 6 } }, wp[2] = { 7, 8 };
    aw_put_cll(&b, 500, 100); aw_put_mdcv(&b, prim, wp, 900, 9); aw_put_t35(&b, 0xb5, 0, (const uint8_t *)"abcdef", 6);
    int at = kind == 1 ? k->n - 1 : 0;
    if (kind == 2) { awb_put(&b, k->v[at].p, k->v[at].n); free(k->v[at].p); k->v[at].p = malloc(b.n); memcpy(k->v[at].p, b.p, b.n); k->v[at].n = b.n; }
    else pk_add(k, &b);
    awb_free(&b);
}
/* bad: index of the frame with nearly no tile data in the stream before the flush, or -1 */
static void part4_pair(int sp, int sq, int pf, int qf, uint64_t seed, int tdmask, int bad) {
    const uint64_t pseed = clean_seed(sp, pf, seed);
    Pkts p, q, q0; g_short_frame = bad; st_build(sp, pf - 1, pseed, &p); g_short_frame = -1; st_build(sq, qf - 1, clean_seed(sq, qf, seed + 5), &q0); q = deep(&q0, 5000); pk_free(&q0);
    if (bad < 0) add_extras(&p, (sp + sq) % 3);
    Obu o[128]; const int m = split(&p, o);
    for (int layers = 0; layers < (sp == ST_SVC || sq == ST_SVC ? 2 : 1); layers++) {
        R e[64]; int ne = -1;
        for (int at = 0; at <= m; at++) for (int g = 0; g < 4; g++) for (int part = 0; part < (at < m && g < 2 ? 4 : 1); part++) {
            if (!en_begin("flush:%s,%d>%s,%d,%llu:obu%d,g%d,part%d,layers%d,bad%d", st_name[sp], pf, st_name[sq], qf, (unsigned long long)seed, at, g, part, layers, bad)) continue;
            if (ne < 0) ne = fresh(&q, layers, e);
            for (int td = 0; td < NTD; td++) {
                if (!(tdmask >> td & 1)) continue;
                Dav1dContext *c = open_td(td, layers);
                int np = 0;
                for (int i = 0; i < at; i++) { put(c, o[i].p, o[i].n, 1000 + i, g == 2 ? (i + 1 == at ? 0 : 1) : g); np++; }
                uint8_t *tmp = NULL;
                if (part == 1 && at < m) { put(c, o[at].p, o[at].n / 2, 1900, 0); np++; }                        /* truncated OBU */
                if (part == 2 && at < m) { size_t l = 0; for (int i = at; i < m; i++) l += o[i].n; tmp = malloc(l); l = 0; for (int i = at; i < m; i++) { memcpy(tmp + l, o[i].p, o[i].n); l += o[i].n; } put(c, tmp, l, 1901, 0); np++; } /* everything in one packet, partly consumed */
                if (part == 3) { dav1d_flush(c); }
                dav1d_flush(c);
                if (freed_n > np) en_viol_("threads=%d: more packets released than sent", TD[td].t);
                nres = nerr = 0; Dav1dPicture pic; memset(&pic, 0, sizeof(pic));
                int r = g & 1 ? dav1d_get_picture(c, &pic) : DAV1D_ERR(EAGAIN);
                if (r != DAV1D_ERR(EAGAIN)) { en_viol_("threads=%d delay=%d: retrieving right after the flush returned %d", TD[td].t, TD[td].d, r); if (!r) dav1d_picture_unref(&pic); }
                for (int i = 0; i < q.n; i++) { put(c, q.v[i].p, q.v[i].n, q.v[i].ts, g == 3 ? 3 : 1); np++; }
                drain(c); dav1d_close(&c);
                char t[64]; snprintf(t, sizeof(t), "threads=%d delay=%d", TD[td].t, TD[td].d);
                cmp(e, ne, t, 1); if (nerr) en_viol_("%s: %d errors after the flush", t, nerr);
                if (freed_n != np) en_viol_("%s: %d of %d packets released", t, freed_n, np);
                free(tmp);
            }
            en_sample("%s", en_case);
        }
    }
    pk_free(&p); pk_free(&q);
}
static void part4(void) {
    for (int sp = 0; sp < ST_NB && !en_over(); sp++) for (int sq = 0; sq < ST_NB && !en_over(); sq++) {
        const int d = (sq - sp + ST_NB) % ST_NB;
        if (en_quick && d > 2 && sp != ST_SVC && sq != ST_SVC && sp != ST_TILES && sq != ST_REF) continue;
        part4_pair(sp, sq, 3 + (sp & 1), 2 + (sq & 1), en_seed, en_quick ? 1 | 1 << (1 + (sp + sq) % 4) : 31, -1);
        for (int bad = 0; bad < 4; bad++) if (!en_quick || (d < 2 && bad == (sp + sq) % 4) || sp == ST_BASIC)
            part4_pair(sp, sq, 5, 3, en_seed + 1, en_quick ? 2 | 1 << (1 + (sp + sq + bad) % 4) : 31, bad);
    }
}

/* =============================================================== S07 */
enum { DM_DROP, DM_TRUNC1, DM_TRUNCH, DM_TRUNCL, DM_EMPTY, DM_GARBAGE, DM_DUP, DM_SWAP, DM_FLIPHDR, DM_ZERO, DM_FF, DM_REPEATSEQ, DM_BADSIZE, DM_NB };
static const char *const dnm[] = { "drop", "keep1", "keephalf", "losebyte", "emptypayload", "garbage", "duplicate", "swap", "fliphdr", "zeros", "ones", "otherseq", "badsize" };
static void damage(Pkts *out, const Obu *o, int m, int at, int kind, uint64_t seed, int arg) {
    AwBuf b = { 0 }; AwRng r = { seed * 31 + at };
    /* one packet per temporal unit as in the source, OBU `at` damaged */
    for (int i = 0, cur = 0; i <= m; i++) {
        if (i == m || o[i].pkt != cur) { if (b.n) { pk_add(out, &b); out->v[out->n - 1].ts = 1000 + cur; } b.n = 0; if (i < m) cur = o[i].pkt; }
        if (i == m) break;
        if (i != at) { awb_put(&b, o[i].p, o[i].n); continue; }
        const size_t n = o[i].n; uint8_t *t = malloc(n + 8); memcpy(t, o[i].p, n);
        switch (kind) {
        case DM_DROP: break;
        case DM_TRUNC1: awb_put(&b, t, 1); break;
        case DM_TRUNCH: aw_obu(&b, o[i].type, 0, 0, 0, 1, t + 2, n / 2 > 2 ? n / 2 - 2 : 0); break;
        case DM_TRUNCL: awb_put(&b, t, n - 1); break;
        case DM_EMPTY: aw_obu(&b, o[i].type, 0, 0, 0, 1, NULL, 0); break;
        case DM_GARBAGE: for (size_t j = 2; j < n; j++) t[j] = aw_rnd(&r); awb_put(&b, t, n); break;
        case DM_DUP: awb_put(&b, t, n); awb_put(&b, t, n); break;
        case DM_SWAP: if (i + 1 < m) awb_put(&b, o[i + 1].p, o[i + 1].n); awb_put(&b, t, n); break;
        case DM_FLIPHDR: t[n > 24 ? 2 + arg / 8 : arg / 8 % n] ^= 1 << arg % 8; awb_put(&b, t, n); break;
        case DM_ZERO: memset(t + 2, 0, n > 2 ? n - 2 : 0); awb_put(&b, t, n); break;
        case DM_FF: memset(t + 2, 0xff, n > 2 ? n - 2 : 0); awb_put(&b, t, n); break;
        case DM_REPEATSEQ: { AwEnc *e = calloc(1, sizeof(*e)); aw_seq_default(&e->seq, 64 + at, 48); aw_put_seq(e, &b); free(e); awb_put(&b, t, n); break; }
        case DM_BADSIZE: t[1] |= 0x80; if (n > 3) { t[2] |= 0x80; t[3] |= 0x7f; } awb_put(&b, t, n); break;
        }
        free(t);
    }
    awb_free(&b);
}
static void part7_pair(int sp, int sq, int pf, uint64_t seed, int nflip, int tdmask) {
    Pkts p, q, q0; st_build(sp, pf - 1, clean_seed(sp, pf, seed), &p); st_build(sq, 2, clean_seed(sq, 3, seed + 5), &q0); q = deep(&q0, 5000); pk_free(&q0);
    Obu o[128]; const int m = split(&p, o);
    R e[64], pe[64]; int ne = -1, npe = 0;
    for (int at = 0; at < m && !en_over(); at++) for (int kind = 0; kind < DM_NB; kind++) for (int arg = 0; arg < (kind == DM_FLIPHDR ? nflip : 1); arg++) {
        if (!en_begin("damage:%s,%d>%s,%llu:obu%d,%s%d", st_name[sp], pf, st_name[sq], (unsigned long long)seed, at, dnm[kind], arg)) continue;
        if (ne < 0) { ne = fresh(&q, 0, e); memcpy(e, res, sizeof(e)); npe = fresh(&p, 0, pe); }
        Pkts d = { 0 }; damage(&d, o, m, at, kind, seed, arg);
        int64_t bad_ts = 1000 + o[at].pkt;
        /* pictures whose packet precedes the damaged one */
        int before = 0; while (before < npe && pe[before].ts < bad_ts) before++;
        for (int td = 0; td < NTD; td++) for (int g = 0; g < 2; g++) {
            if (!(tdmask >> td & 1) || (td && g != (at & 1))) continue;
            Dav1dContext *c = open_td(td, 0); char t[64]; snprintf(t, sizeof(t), "threads=%d delay=%d g=%d", TD[td].t, TD[td].d, g);
            for (int i = 0; i < d.n; i++) put(c, d.v[i].p, d.v[i].n, d.v[i].ts, g ? 3 : 1);
            for (int i = 0; i < q.n; i++) put(c, q.v[i].p, q.v[i].n, q.v[i].ts, g ? 3 : 1);
            drain(c); dav1d_close(&c);
            for (int i = 0; i < before; i++) if (i >= nres || res[i].h != pe[i].h || res[i].ts != pe[i].ts) { en_viol_("%s: picture %d, decoded from intact data before the damage, %s", t, i, i >= nres ? "is missing" : "differs"); break; }
            for (int i = 0; i < nerr && i < 256; i++) {
                if (err_ts[i] >= 5000) { en_viol_("%s: error attributed to intact data (timestamp %lld)", t, (long long)err_ts[i]); break; }
                if (!i && err_ts[0] < bad_ts) { en_viol_("%s: the first error is attributed to the data with timestamp %lld, before the damage at %lld", t, (long long)err_ts[0], (long long)bad_ts); break; }
            }
            /* recovery */
            int k = 0; for (int i = 0; i < nres; i++) if (res[i].ts >= 5000) res[k++] = res[i];
            nres = k; cmp(e, ne, t, 1);
            if (freed_n != d.n + q.n) en_viol_("%s: %d of %d packets released", t, freed_n, d.n + q.n);
            en_seen(hu(hu(hu(H0, nerr), k), kind * 100 + sp));
        }
        pk_free(&d);
        en_sample("%s: %d errors", en_case, nerr);
    }
    pk_free(&p); pk_free(&q);
}
/* damaged tile data: the error must carry the properties of its packet */
static void part7_props(int sp, uint64_t seed0) {
    const int n = 5;
    for (int bad = 0; bad < n; bad++) for (int td = 0; td < NTD; td++) for (int g = 1; g < 4; g += 2) {
        if (!en_begin("tiledamage:%s,%llu:frame%d,td%d,g%d", st_name[sp], (unsigned long long)seed0, bad, td, g)) continue;
        /* three bytes of tile data run out within a few symbols, unless the frame needs next to none:
         * take the first payload for which single-threaded decoding notices */
        uint64_t seed = clean_seed(sp, n, seed0), t0 = seed;
        Pkts p, q;
        for (int tries = 0; ; tries++, seed = clean_seed(sp, n, seed + 1)) {
            g_short_frame = bad; st_build(sp, n - 1, seed, &p); g_short_frame = -1;
            Dav1dContext *c = open_td(0, 0);
            for (int i = 0; i < p.n; i++) put(c, p.v[i].p, p.v[i].n, i, 3);
            drain(c); dav1d_close(&c);
            if (nerr) break;
            if (tries == 20) { en_viol_("single-threaded decoding does not report a frame with three bytes of tile data, for 20 different payloads"); seed = t0; break; }
            pk_free(&p);
        }
        Pkts q0; st_build(sp, n - 1, seed, &q0); q = deep(&q0, 5000); pk_free(&q0);
        R e[64], pe[64]; int ne = fresh(&q, 0, e), npe; Pkts ok; st_build(sp, n - 1, seed, &ok); npe = fresh(&ok, 0, pe); pk_free(&ok);
        Dav1dContext *c = open_td(td, 0);
        /* which packet holds the bad frame: the one that is shorter than in the intact stream */
        int bp = -1; for (int i = 0; i < p.n && bp < 0; i++) if (p.v[i].n != q.v[i].n) bp = i;
        for (int i = 0; i < p.n; i++) put(c, p.v[i].p, p.v[i].n, p.v[i].ts, g);
        for (int i = 0; i < q.n; i++) put(c, q.v[i].p, q.v[i].n, q.v[i].ts, g);
        drain(c); dav1d_close(&c);
        if (!nerr) en_viol_("threads=%d delay=%d: the damaged frame is not reported", TD[td].t, TD[td].d);
        else if (err_ts[0] != 1000 + bp) en_viol_("threads=%d delay=%d: first error attributed to timestamp %lld instead of %d", TD[td].t, TD[td].d, (long long)err_ts[0], 1000 + bp);
        for (int i = 0; i < npe && pe[i].ts < 1000 + bp; i++) if (i >= nres || res[i].h != pe[i].h) { en_viol_("threads=%d delay=%d: picture %d, before the damaged frame, is missing or differs", TD[td].t, TD[td].d, i); break; }
        int k = 0; for (int i = 0; i < nres; i++) if (res[i].ts >= 5000) res[k++] = res[i];
        nres = k; cmp(e, ne, "recovery", 1);
        pk_free(&p); pk_free(&q);
    }
}
static void part7(void) {
    for (int sp = 0; sp < ST_NB && !en_over(); sp++) part7_props(sp, en_seed + 3);
    for (int sp = 0; sp < ST_NB && !en_over(); sp++) {
        part7_pair(sp, sp, 4, en_seed, en_quick ? 64 : 400, en_quick ? 1 | 1 << (1 + sp % 4) : 31);
        for (int sq = 0; sq < ST_NB && !en_over(); sq++)
            if (sq != sp && (!en_quick || (sq - sp + ST_NB) % ST_NB == 1 + sp % 3)) part7_pair(sp, sq, 3, en_seed + 1, en_quick ? 8 : 120, en_quick ? 1 | 1 << (1 + sq % 4) : 31);
    }
}

/* =============================================================== S15 */
/* scalable stream, highest layer only: bit i of mask = temporal unit i+1 lacks the upper layer */
static void svc_stream(Pkts *k, int n, int mask) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f; memset(k, 0, sizeof(*k));
    aw_seq_default(&e->seq, 16, 16); e->seq.n_op = 2; e->seq.op[0].idc = 0x301; e->seq.op[1].idc = 0x101; e->seq.op[0].level = e->seq.op[1].level = 0;
    for (int i = 0; i < n; i++) {
        b.n = 0; aw_put_td(&b); if (!i) aw_put_seq(e, &b);
        for (int l = 0; l < 2; l++) {
            if (i && l && (mask >> (i - 1) & 1)) continue;
            aw_frm_default(e, &f, i || l ? 1 : 0); f.has_ext = 1; f.sid = l; f.order_hint = i;
            if (i || l) { f.refresh = 1 << l; for (int j = 0; j < 7; j++) f.refidx[j] = 0; }
            put_frame(e, &f, &b, en_seed * 97 + i * 2 + l, 1200, 0);
        }
        pk_add(k, &b);
    }
    free(e); awb_free(&b);
}
static void part15_svc(void) {
    enum { N = 6 };
    for (int mask = 0; mask < 1 << (N - 1); mask++) {
        Pkts k; svc_stream(&k, N, mask);
        for (int td = 0; td < 6; td++) {
            static const int T[6][2] = { { 1, 1 }, { 1, 0 }, { 2, 1 }, { 3, 1 }, { 3, 2 }, { 4, 4 } };
            if (!en_begin("layers:threads=%d,delay=%d,missing=%x", T[td][0], T[td][1], mask)) continue;
            Dav1dSettings s; Dav1dContext *c = NULL; dec_settings(&s, T[td][0], T[td][1]); s.all_layers = 0;
            const int a = dav1d_get_frame_delay(&s); nres = nerr = 0; en_evals++;
            if (dav1d_open(&c, &s)) { en_viol_("dav1d_open failed"); continue; }
            for (int x = 0; x < N; x++) {
                put(c, k.v[x].p, k.v[x].n, x, 1);
                if (a == 1 && nres != x + 1) { en_viol_("delay 1: %d pictures after %d packets", nres, x + 1); break; }
            }
            drain(c); if (nres != N) en_viol_("%d of %d temporal units delivered a picture", nres, N);
            for (int x = 0; x < nres && x < N; x++) if (res[x].ts != x) { en_viol_("picture %d carries timestamp %lld", x, (long long)res[x].ts); break; }
            if (nerr) en_viol_("%d errors", nerr);
            dav1d_close(&c); en_nontrivial += mask != 0; en_seen(mask * 8 + td);
        }
        pk_free(&k);
    }
}
static void part15(void) {
    part15_svc();
    Pkts k; st_build(ST_ONEROW, 23, en_seed, &k);
    static const int ths[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 25, 26, 32, 36, 37, 48, 49, 50, 51, 64, 100, 128, 200, 255, 256 };
    static const int dls[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64, 128, 255, 256 };
    const int maxt = en_quick ? 26 : 64;
    /* the announced delay for every pair of settings */
    if (en_begin("announced")) for (int t = 0; t <= 256; t++) for (int d = 0; d <= 256; d++) {
        Dav1dSettings s; dav1d_default_settings(&s); s.n_threads = t; s.max_frame_delay = d;
        const int a = dav1d_get_frame_delay(&s); en_evals++;
        if (a < 1 || a > 256 || (d && a > d) || (t && a > t)) en_viol_("n_threads=%d max_frame_delay=%d announces %d", t, d, a);
        /* 0 means: chosen by the decoder; must not be affected otherwise */
        if (t && d && a != (t < d ? t : d)) en_viol_("n_threads=%d max_frame_delay=%d announces %d", t, d, a);
        en_nontrivial++;
    }
    for (unsigned i = 0; i < sizeof(ths) / sizeof(*ths); i++) for (unsigned j = 0; j < sizeof(dls) / sizeof(*dls); j++) for (int hid = 0; hid < 2; hid++) {
        if (ths[i] > maxt) continue;
        if (!en_begin("delay:threads=%d,delay=%d,%s", ths[i], dls[j], hid ? "hidden" : "shown")) continue;
        Dav1dSettings s; Dav1dContext *c = NULL; dec_settings(&s, ths[i], dls[j]);
        const int a = dav1d_get_frame_delay(&s);
        nres = nerr = 0; en_evals++;
        if (dav1d_open(&c, &s)) { en_viol_("dav1d_open failed"); continue; }
        Pkts hk; if (hid) st_build(ST_SHOWEX, 20, en_seed, &hk);
        const Pkts *q = hid ? &hk : &k;
        /* shown so far: for the hidden-frame stream, every even packet-pair shows; count from a reference decode */
        static int shown[64]; { R keep[256]; int kn; Dav1dSettings s1; dec_settings(&s1, 1, 1); Dav1dContext *r = NULL; if (dav1d_open(&r, &s1)) exit(2);
            for (int x = 0; x < q->n; x++) { put(r, q->v[x].p, q->v[x].n, x, 3); shown[x] = nres; } kn = nres; memcpy(keep, res, sizeof(keep)); dav1d_close(&r); nres = 0; (void)kn; (void)keep; }
        if (!hid && shown[q->n - 1] != q->n) en_viol_("delay 1: %d of %d pictures delivered right after their packets", shown[q->n - 1], q->n);
        for (int x = 0; x < q->n; x++) {
            const int before = nres;
            put(c, q->v[x].p, q->v[x].n, x, 1);
            if (nres > before + 1) en_viol_("one retrieval delivered several pictures");
            /* every coded frame or shown-again frame occupies one place of the delay line */
            int due = a == 1 ? shown[x] : x >= a ? shown[x - a] : 0;
            if (nres < due) { en_viol_("announced delay %d: only %d pictures delivered after packet %d, at least %d due", a, nres, x, due); break; }
        }
        drain(c); if (nres != shown[q->n - 1]) en_viol_("%d of %d pictures delivered", nres, shown[q->n - 1]);
        dav1d_close(&c); en_nontrivial++; en_seen(a);
        if (hid) pk_free(&hk);
    }
    pk_free(&k);
}
int main(int argc, char **argv) {
    en_init(argc, argv);
#if PART == 6
    part6();
#elif PART == 4
    part4();
#elif PART == 7
    part7();
#elif PART == 15
    part15();
#endif
    return en_finish();
}

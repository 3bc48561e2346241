/* S13: the decoded pictures do not depend on the CPU level or on the picture
 * allocator.  Reference results come from the portable C build (emit mode:
 * REF_OUT=file prefix); they are compared in builds with assembly under every CPU
 * flag mask, allocator and a few thread settings (REF_IN=file prefix). */
#include <fcntl.h>
#include "streams.h"
#include "enumh.h"
#include "palloc.h"

typedef struct { char key[96]; uint64_t h; } RefE;
static RefE *refs; static int n_refs, emit; static FILE *rf;
static void refs_open(void) {
    const char *o = getenv("REF_OUT"), *i = getenv("REF_IN"); char fn[512];
    if (o) { snprintf(fn, sizeof(fn), "%s.%d", o, en_shard); rf = fopen(fn, "w"); emit = 1; if (!rf) exit(2); return; }
    for (int s = 0; s < 64; s++) {
        snprintf(fn, sizeof(fn), "%s.%d", i ? i : "", s); FILE *f = fopen(fn, "r"); if (!f) break;
        char k[96]; unsigned long long v;
        while (fscanf(f, "%95s %llx", k, &v) == 2) { if (!(n_refs & 4095)) refs = realloc(refs, (n_refs + 4096) * sizeof(*refs)); strcpy(refs[n_refs].key, k); refs[n_refs++].h = v; }
        fclose(f);
    }
    int cmp(const void *a, const void *b) { return strcmp(((RefE *)a)->key, ((RefE *)b)->key); }
    qsort(refs, n_refs, sizeof(*refs), cmp);
}
static int ref_get(const char *k, uint64_t *h) {
    int lo = 0, hi = n_refs - 1;
    while (lo <= hi) { int m = (lo + hi) / 2, c = strcmp(k, refs[m].key); if (!c) { *h = refs[m].h; return 1; } if (c < 0) hi = m - 1; else lo = m + 1; }
    return 0;
}

/* ---- allocators */
typedef struct { PA a; int alt, n; } Alc; /* alt: 1 stride changes from picture to picture, 2 sign changes too */
static int al_alloc(Dav1dPicture *p, void *c) {
    Alc *a = c; PA t; memset(&t, 0, sizeof(t)); atomic_init(&t.fail_in, -1);
    t.neg = a->a.neg; t.extra = a->a.extra; t.fill = a->a.fill;
    if (a->alt) { t.extra += a->n & 1; if (a->alt == 2) t.neg ^= a->n & 1; }
    a->n++;
    const int r = pa_alloc(p, &t); if (!r) { atomic_fetch_add(&a->a.live, 1); atomic_fetch_add(&a->a.allocs, 1); }
    return r;
}
static void al_release(Dav1dPicture *p, void *c) { Alc *a = c; pa_release(p, &a->a); }

int mon_bad __attribute__((weak));
static int npic;
static uint64_t run1(const Pkts *k, unsigned mask, int alc /* -1 default */, int fill, int threads, int delay, int nograin) {
    Dav1dSettings s; dec_settings(&s, threads, delay); s.apply_grain = !nograin;
    Alc a; memset(&a, 0, sizeof(a)); pa_init(&a.a, 0, 0, fill);
    if (alc >= 0) {
        a.a.neg = alc & 1; a.a.extra = (alc >> 1 & 1) + 2 * (alc >> 2 & 1); a.alt = alc >> 3;
        s.allocator.cookie = &a; s.allocator.alloc_picture_callback = al_alloc; s.allocator.release_picture_callback = al_release;
    }
    dav1d_set_cpu_flags_mask(mask);
    static Trace t; if (dec_all(&s, k, &t)) { en_viol_("cannot open the decoder"); return 0; }
    uint64_t h = H0; npic = 0; int er = 0;
    for (int i = 0; i < t.n; i++) { h = hu(h, t.e[i].kind); h = hu(h, t.e[i].res); er |= t.e[i].kind; if (!t.e[i].kind) { npic++; h = hu(h, t.e[i].h); h = hu(h, t.e[i].ts); } }
    if (alc >= 0) {
        if (atomic_load(&a.a.live)) en_viol_("%d picture buffers never released", atomic_load(&a.a.live));
        if (atomic_load(&a.a.bad)) en_viol_("the decoder wrote outside the planes or handed back other pointers");
    }
    en_evals++; return ((h | 2) & ~1ull) | !er; /* odd: without errors */
}
static char key[96]; static uint64_t want; static int n_nonconf;
/* in emit mode: write the reference and return 0 */
static int prep(const Pkts *k) {
    if (emit) { mon_bad = 0; uint64_t h = run1(k, 0, -1, 0, 1, 1, 0); if (mon_bad) h = 0; fprintf(rf, "%s %llx\n", key, (unsigned long long)h); return 0; }
    if (!ref_get(key, &want)) { fprintf(stderr, "no reference for %s\n", key); exit(2); }
    if (!want) n_nonconf++;
    return want != 0; /* 0: transform values out of the conforming range */
}
static void chk(const Pkts *k, unsigned mask, int alc, int fill, int th, int dl) {
    if (dl > 1 && !(want & 1)) return; /* which call reports an error depends on the delay */
    const uint64_t h = run1(k, mask, alc, fill, th, dl, 0);
    if (h != want) en_viol_("pictures differ from the portable code's: cpu mask %#x, allocator %d (1 negative stride, 2/4 longer stride, 8+ stride varies), prior content %d, threads %d delay %d", mask, alc, fill, th, dl);
    if (npic > 1) en_nontrivial++;
    en_seen(h);
}
static const unsigned LV[] = { 0, 1, 3, 7, 15, 31, 31 + 32, 15 + 32 };

/* ---- constructed streams */
static const char *const ftn[] = { "plain", "wiener", "sgr", "superres", "screen", "intrabc", "wide-q", "warp", "scaled", "sb128", "lossless", "skipfilters", "superscaled" };
enum { NFT = 13 };
static void mk(Pkts *k, int w, int h, int lay, int depth, int ft, int ni, uint64_t seed) {
    AwEnc *e = calloc(1, sizeof(*e)); AwBuf b = { 0 }; AwFrm f;
    memset(k, 0, sizeof(*k)); g_frame_no = 0;
    aw_seq_default(&e->seq, w, h);
    e->seq.hbd = depth;
    if (lay == 0) e->seq.mono = 1;
    if (lay == 2) { e->seq.profile = 2; e->seq.ssx = 1; e->seq.ssy = 0; }
    if (lay == 3) { e->seq.profile = 1; e->seq.ssx = e->seq.ssy = 0; }
    if (depth == 2) e->seq.profile = 2;
    if (ft == 9) e->seq.sb128 = 1;
    if (ft == 3 || ft == 12) e->seq.superres = 1;
    for (int i = 0; i <= ni; i++) {
        aw_frm_default(e, &f, i ? 1 : 0);
        f.order_hint = i; f.yac = 10 + (seed * 37 + i * 50) % 90;
        if (i) { for (int j = 0; j < 7; j++) f.refidx[j] = j & 1 ? 0 : i > 1; f.refresh = 1 << (i & 1); f.comp = 1; f.use_refmvs = 1; f.filter = (i + seed) % 5; f.primary = seed & 1 ? 0 : 7; f.hp = i & 1; }
        switch (ft) {
        case 1: f.lr[0] = 2; f.lr[1] = 2; f.lr[2] = 2; break;
        case 2: f.lr[0] = 3; f.lr[1] = 3; f.lr[2] = 1; f.lr_shift = 1; break;
        case 3: f.sr = 1; f.denom = 9 + (seed + i * 3) % 8; f.lr[0] = 1; f.lr[1] = 2; f.cdef_bits = 1; f.cdef_y[0] = 0x3f; f.cdef_uv[0] = 0x2e; f.cdef_y[1] = 0x15; f.cdef_uv[1] = 0x33; break;
        case 4: f.allow_sct = 1; f.force_int_mv = i & 1; break;
        case 5: f.allow_sct = 1; if (!(i & 1)) { f.intrabc = 1; if (i) { f.type = 2; f.refresh = 2; } f.lf_y0 = f.lf_y1 = f.lf_u = f.lf_v = 0; f.lf_de = 0; } break;
        case 6: f.yac = 160 - i * 60; f.qm = 1; f.qmy = 2 + i; f.qmu = 4; f.qmv = 9; f.dq = 1; f.tx_select = i & 1; f.reduced_tx = i == 2; break;
        case 7: if (i) { f.warp = 1; f.sw_motion = 1; f.gm_type[0] = 1; f.gm[0][0] = 3 << 13; f.gm[0][1] = -(5 << 13); f.gm_type[2] = 3; f.gm[2][2] = (1 << 16) + 900; f.gm[2][3] = 400; f.gm[2][4] = -500; f.gm[2][5] = (1 << 16) + 600; f.gm_type[1] = 2; f.gm[1][2] = (1 << 16) + 700; f.gm[1][3] = 300; f.gm[1][4] = -300; f.gm[1][5] = (1 << 16) + 700; } break;
        case 12: f.sr = 1; f.denom = 9 + (seed + i) % 2; f.lr[0] = 3; f.lr[1] = 2; f.cdef_uv[0] = 0x2b; /* fallthrough */
        case 8: if (i) { f.size_override = 1; f.w = i & 1 ? w * 3 / 2 : (w * 2 + 2) / 3; f.h = i & 1 ? (h * 2 + 2) / 3 : h; if (f.w > w) f.w = w; if (f.w < (ft == 12 ? 20 : 8)) f.w = ft == 12 ? 20 : 8; if (f.h < 8) f.h = 8; f.rw = f.w; f.rh = f.h; } break;
        case 10: f.yac = 0; f.lf_y0 = f.lf_y1 = 0; break;
        case 11: f.lf_y0 = f.lf_y1 = 0; f.cdef_bits = 2; for (int q = 0; q < 4; q++) { f.cdef_y[q] = q * 17 + i; f.cdef_uv[q] = 63 - q * 9; } f.lf_sharp = i; break;
        }
        st_frame(e, &f, k, &b, seed * 131 + i * 7 + ft, i == 0, 0);
    }
    free(e); awb_free(&b);
}
int main(int argc, char **argv) {
    en_init(argc, argv); refs_open(); en_hang_s = 60;
    Pkts k;
    /* A: every stream x every mask;  B: x allocators x threads */
    for (int id = 0; id < ST_NB; id++) for (int sd = 0; sd < (en_quick ? 3 : 24); sd++) {
        snprintf(key, sizeof(key), "A:%s,%d", st_name[id], sd);
        if (!en_begin("%s", key)) continue;
        st_build(id, 3, en_seed * 17 + sd, &k);
        if (prep(&k)) {
            for (unsigned m = 0; m < 64; m++) chk(&k, m, -1, 0, 1, 1);
            const int grain = id == ST_GRAIN || id == ST_GRAIN10, nalt = grain ? 8 : 24;
            for (int al = 0; al < nalt; al++) for (int l = 0; l < 3; l++) {
                static const unsigned ml[] = { 0, 15, 63 }; static const int fl[] = { 0, 255, 0x55 };
                chk(&k, ml[l], al, fl[(l + al) % 3], 1, 1);
                if (!en_quick || (al + l + id) % 3 == 0) { chk(&k, ml[l], al, fl[(l + al + 1) % 3], 3, 2); chk(&k, ml[l], al, fl[(l + al + 2) % 3], 2, 1); }
            }
            if (!sd) en_sample("%s", key);
        }
        pk_free(&k);
    }
    /* C: sizes x formats x tools x levels */
    static const int SZ[] = { 16, 1, 2, 3, 5, 7, 8, 9, 15, 17, 23, 31, 32, 33, 47, 49, 63, 64, 65, 66, 71, 79, 95, 97, 127, 128, 129, 130, 135, 143 };
    const int ns = en_quick ? 30 : 30;
    for (int wi = 0; wi < ns; wi++) for (int ft = 0; ft < NFT; ft++) for (int lay = 0; lay < 4; lay++) for (int dp = 0; dp < 3; dp++) {
        if (en_quick && (wi + ft * 5 + lay * 3 + dp * 7) % (getenv("REF_HALF") ? 2 : 1)) continue;
        for (int hs = 0; hs < (en_quick ? 1 : 6); hs++) {
            const int w = SZ[wi], hi = (wi * 7 + ft * 3 + lay * 11 + dp * 5 + hs * 13) % ns, h = SZ[hi];
            if ((ft == 3 || ft == 12) && w < 20) continue;
            if ((ft == 8 || ft == 12) && (w < 16 || h < 16)) continue;
            snprintf(key, sizeof(key), "C:%dx%d,%s,%d,%d", w, h, ftn[ft], lay, 8 + 2 * dp);
            if (!en_begin("%s", key)) continue;
            if (en_over() && !emit) goto out;
            mk(&k, w, h, lay, dp, ft, 2, en_seed + hs + wi);
            if (prep(&k)) {
                for (int l = 0; l < 8; l++) chk(&k, LV[l], -1, 0, 1, 1);
                chk(&k, 63, 1, 255, 1, 1); chk(&k, 63, 2, 0x55, 1, 1); chk(&k, 0, 1, 0, 2, 2); chk(&k, 63, 17, 0x99, 2, 1); chk(&k, 15, 3, 0x40, 3, 1);
            }
            pk_free(&k);
        }
    }
out:
    if (rf) fclose(rf); else printf("S shard 0: %d streams outside the conforming transform range\n", n_nonconf);
    return en_finish();
}

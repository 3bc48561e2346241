/* Film grain synthesis as the AV1 specification describes it (7.18.3): noise
 * stripes, noise image, blending.  Written from the specification; only the
 * table of Gaussian samples is taken from the decoder's sources. */
#ifndef FGMODEL_H
#define FGMODEL_H
#include "dech.h"
extern const int16_t dav1d_gaussian_sequence[2048];
typedef struct { int w, h, layout, bd; uint16_t *pl[3]; int pw[3], ph[3]; } FgPic;
static void fg_pic_from(FgPic *o, const Dav1dPicture *p) {
    memset(o, 0, sizeof(*o)); o->w = p->p.w; o->h = p->p.h; o->layout = p->p.layout; o->bd = p->p.bpc;
    for (int i = 0; i < (p->p.layout ? 3 : 1); i++) {
        int w, h, bps; pic_planes(&p->p, i, &w, &h, &bps); o->pw[i] = w; o->ph[i] = h; o->pl[i] = malloc((size_t)w * h * 2 + 2);
        for (int y = 0; y < h; y++) { const uint8_t *s = (const uint8_t *)p->data[i] + y * p->stride[!!i];
            if (bps == 2) memcpy(o->pl[i] + (size_t)y * w, s, (size_t)w * 2); else for (int x = 0; x < w; x++) o->pl[i][(size_t)y * w + x] = s[x]; }
    }
}
static void fg_pic_free(FgPic *o) { for (int i = 0; i < 3; i++) free(o->pl[i]); memset(o, 0, sizeof(*o)); }
/* returns -1 if equal, otherwise the plane that differs (position in x,y) */
static int fg_pic_cmp(const FgPic *o, const Dav1dPicture *p, int *ox, int *oy) {
    if (o->w != p->p.w || o->h != p->p.h || o->bd != p->p.bpc || o->layout != (int)p->p.layout) return 3;
    for (int i = 0; i < (p->p.layout ? 3 : 1); i++) for (int y = 0; y < o->ph[i]; y++) {
        const uint8_t *s = (const uint8_t *)p->data[i] + y * p->stride[!!i]; const uint16_t *q = o->pl[i] + (size_t)y * o->pw[i];
        for (int x = 0; x < o->pw[i]; x++) if (q[x] != (o->bd > 8 ? ((const uint16_t *)s)[x] : s[x])) { *ox = x; *oy = y; return i; }
    }
    return -1;
}
static unsigned fg_reg;
static int fg_rand(int bits) { unsigned r = fg_reg, bit = ((r >> 0) ^ (r >> 1) ^ (r >> 3) ^ (r >> 12)) & 1; r = (r >> 1) | (bit << 15); fg_reg = r; return (r >> (16 - bits)) & ((1 << bits) - 1); }
static int fg_r2(int x, int n) { return n ? (x + (1 << (n - 1))) >> n : x; }
static int fg_clip3(int lo, int hi, int v) { return v < lo ? lo : v > hi ? hi : v; }
typedef struct { int luma[73][82], ch[2][73][82]; int lut[3][256]; } FgTab;
static void fg_lut(int *lut, const uint8_t pt[][2], int n) {
    if (!n) { memset(lut, 0, 256 * sizeof(int)); return; }
    for (int i = 0; i < pt[0][0]; i++) lut[i] = pt[0][1];
    for (int i = 0; i < n - 1; i++) {
        const int dy = pt[i + 1][1] - pt[i][1], dx = pt[i + 1][0] - pt[i][0], delta = dy * ((65536 + (dx >> 1)) / dx);
        for (int x = 0; x < dx; x++) lut[pt[i][0] + x] = pt[i][1] + ((x * delta + 32768) >> 16);
    }
    for (int i = pt[n - 1][0]; i < 256; i++) lut[i] = pt[n - 1][1];
}
static int fg_scale(const int *lut, int bd, int idx) {
    const int sh = bd - 8, x = idx >> sh, rem = idx - (x << sh);
    if (bd == 8 || x == 255) return lut[x];
    return lut[x] + fg_r2((lut[x + 1] - lut[x]) * rem, sh);
}
static void fg_gen(FgTab *t, const Dav1dFilmGrainData *g, int bd, int subx, int suby, int mono) {
    const int gc = 128 << (bd - 8), gmin = -gc, gmax = (256 << (bd - 8)) - 1 - gc, lag = g->ar_coeff_lag, sh = (int)g->ar_coeff_shift;
    fg_reg = g->seed;
    for (int y = 0; y < 73; y++) for (int x = 0; x < 82; x++) t->luma[y][x] = g->num_y_points > 0 ? fg_r2(dav1d_gaussian_sequence[fg_rand(11)], 12 - bd + g->grain_scale_shift) : 0;
    for (int y = 3; y < 73; y++) for (int x = 3; x < 82 - 3; x++) {
        int sum = 0, pos = 0;
        for (int dr = -lag; dr <= 0; dr++) for (int dc = -lag; dc <= lag; dc++) { if (!dr && dc >= 0) break; sum += g->ar_coeffs_y[pos++] * t->luma[y + dr][x + dc]; }
        t->luma[y][x] = fg_clip3(gmin, gmax, t->luma[y][x] + fg_r2(sum, sh));
    }
    if (mono) return;
    const int cw = subx ? 44 : 82, chh = suby ? 38 : 73;
    for (int p = 0; p < 2; p++) {
        fg_reg = g->seed ^ (p ? 0x49d8 : 0xb524);
        for (int y = 0; y < chh; y++) for (int x = 0; x < cw; x++) t->ch[p][y][x] = g->num_uv_points[p] || g->chroma_scaling_from_luma ? fg_r2(dav1d_gaussian_sequence[fg_rand(11)], 12 - bd + g->grain_scale_shift) : 0;
        for (int y = 3; y < chh; y++) for (int x = 3; x < cw - 3; x++) {
            int sum = 0, pos = 0;
            for (int dr = -lag; dr <= 0; dr++) for (int dc = -lag; dc <= lag; dc++) {
                const int c = g->ar_coeffs_uv[p][pos];
                if (!dr && !dc) {
                    if (g->num_y_points > 0) { int l = 0; const int lx = ((x - 3) << subx) + 3, ly = ((y - 3) << suby) + 3;
                        for (int i = 0; i <= suby; i++) for (int j = 0; j <= subx; j++) l += t->luma[ly + i][lx + j];
                        sum += c * fg_r2(l, subx + suby); }
                    break;
                }
                sum += c * t->ch[p][y + dr][x + dc]; pos++;
            }
            t->ch[p][y][x] = fg_clip3(gmin, gmax, t->ch[p][y][x] + fg_r2(sum, sh));
        }
    }
}
/* applies grain to o in place */
static void fg_apply(FgPic *o, const Dav1dFilmGrainData *g, int mc_identity) {
    static FgTab t; static Dav1dFilmGrainData last; static int lk = -1;
    const int bd = o->bd, mono = !o->layout, subx = o->layout == DAV1D_PIXEL_LAYOUT_I420 || o->layout == DAV1D_PIXEL_LAYOUT_I422, suby = o->layout == DAV1D_PIXEL_LAYOUT_I420;
    if (lk != (bd << 4 | o->layout) || memcmp(&last, g, sizeof(last))) { fg_gen(&t, g, bd, subx, suby, mono); last = *g; lk = bd << 4 | o->layout; }
    fg_lut(t.lut[0], g->y_points, g->num_y_points);
    for (int p = 0; p < 2; p++) if (g->chroma_scaling_from_luma) memcpy(t.lut[1 + p], t.lut[0], sizeof(t.lut[0])); else fg_lut(t.lut[1 + p], g->uv_points[p], g->num_uv_points[p]);
    const int gc = 128 << (bd - 8), gmin = -gc, gmax = (256 << (bd - 8)) - 1 - gc;
    const int np = mono ? 1 : 3, w = o->w, h = o->h;
    const int nst = ((h + 1) / 2 + 15) / 16, sw = w + 64;
    int *stripe[3]; for (int p = 0; p < np; p++) stripe[p] = calloc((size_t)nst * 34 * sw, sizeof(int));
    int ln = 0;
    for (int y = 0; y < (h + 1) / 2; y += 16, ln++) {
        fg_reg = g->seed; fg_reg ^= ((ln * 37 + 178) & 255) << 8; fg_reg ^= ((ln * 173 + 105) & 255);
        for (int x = 0; x < (w + 1) / 2; x += 16) {
            const int r = fg_rand(8), ox = r >> 4, oy = r & 15;
            for (int p = 0; p < np; p++) {
                const int px = p ? subx : 0, py = p ? suby : 0, pox = px ? 6 + ox : 9 + ox * 2, poy = py ? 6 + oy : 9 + oy * 2;
                for (int i = 0; i < 34 >> py; i++) for (int j = 0; j < 34 >> px; j++) {
                    int v = p ? t.ch[p - 1][poy + i][pox + j] : t.luma[poy + i][pox + j];
                    int *const d = &stripe[p][((size_t)ln * 34 + i) * sw + (px ? x + j : x * 2 + j)];
                    if (!px) { if (j < 2 && g->overlap_flag && x > 0) { v = j ? *d * 17 + v * 27 : *d * 27 + v * 17; v = fg_clip3(gmin, gmax, fg_r2(v, 5)); } }
                    else if (!j && g->overlap_flag && x > 0) { v = *d * 23 + v * 22; v = fg_clip3(gmin, gmax, fg_r2(v, 5)); }
                    *d = v;
                }
            }
        }
    }
    int *img[3];
    for (int p = 0; p < np; p++) {
        const int py = p ? suby : 0, pw = o->pw[p], ph = o->ph[p]; img[p] = malloc(sizeof(int) * ((size_t)pw * ph + 1));
        for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) {
            const int l = y >> (5 - py), i = y - (l << (5 - py)); int v = stripe[p][((size_t)l * 34 + i) * sw + x];
            if (!py) { if (i < 2 && l > 0 && g->overlap_flag) { const int old = stripe[p][((size_t)(l - 1) * 34 + i + 32) * sw + x]; v = i ? old * 17 + v * 27 : old * 27 + v * 17; v = fg_clip3(gmin, gmax, fg_r2(v, 5)); } }
            else if (i < 1 && l > 0 && g->overlap_flag) { const int old = stripe[p][((size_t)(l - 1) * 34 + i + 16) * sw + x]; v = fg_clip3(gmin, gmax, fg_r2(old * 23 + v * 22, 5)); }
            img[p][(size_t)y * pw + x] = v;
        }
        free(stripe[p]);
    }
    int mn = 0, mxl = (256 << (bd - 8)) - 1, mxc = mxl; const int top = mxl;
    if (g->clip_to_restricted_range) { mn = 16 << (bd - 8); mxl = 235 << (bd - 8); mxc = mc_identity ? mxl : 240 << (bd - 8); }
    for (int p = 1; p < np; p++) {
        if (!g->num_uv_points[p - 1] && !g->chroma_scaling_from_luma) continue;
        for (int y = 0; y < o->ph[p]; y++) for (int x = 0; x < o->pw[p]; x++) {
            const int lx = x << subx, ly = y << suby, nx = lx + 1 < w ? lx + 1 : w - 1; const uint16_t *L = o->pl[0] + (size_t)ly * w;
            const int avg = subx ? (L[lx] + L[nx] + 1) >> 1 : L[lx]; uint16_t *const c = &o->pl[p][(size_t)y * o->pw[p] + x]; int merged = avg;
            if (!g->chroma_scaling_from_luma) { const int cm = avg * g->uv_luma_mult[p - 1] + *c * g->uv_mult[p - 1]; merged = fg_clip3(0, top, (cm >> 6) + g->uv_offset[p - 1] * (1 << (bd - 8))); }
            const int n = fg_r2(fg_scale(t.lut[p], bd, merged) * img[p][(size_t)y * o->pw[p] + x], g->scaling_shift);
            *c = fg_clip3(mn, mxc, *c + n);
        }
    }
    if (g->num_y_points) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        uint16_t *const c = &o->pl[0][(size_t)y * w + x]; const int n = fg_r2(fg_scale(t.lut[0], bd, *c) * img[0][(size_t)y * w + x], g->scaling_shift);
        *c = fg_clip3(mn, mxl, *c + n);
    }
    for (int p = 0; p < np; p++) free(img[p]);
}
#endif

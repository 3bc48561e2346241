/* Decoder-driving helpers shared by the harnesses. */
#ifndef DECH_H
#define DECH_H
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dav1d/dav1d.h"
#include "av1w.h"

static inline uint64_t h64(uint64_t h, const void *p, size_t n) {
    const uint8_t *b = p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 0x100000001b3ull; h ^= h >> 31; }
    return h;
}
#define H0 0xcbf29ce484222325ull
static inline uint64_t hu(uint64_t h, uint64_t v) { return h64(h, &v, 8); }

static inline void pic_planes(const Dav1dPictureParameters *p, int pl, int *w, int *h, int *bps) {
    const int ssh = pl && p->layout != DAV1D_PIXEL_LAYOUT_I444;
    const int ssv = pl && p->layout == DAV1D_PIXEL_LAYOUT_I420;
    *w = (p->w + ssh) >> ssh; *h = (p->h + ssv) >> ssv; *bps = p->bpc > 8 ? 2 : 1;
}
static inline uint64_t pic_pix_hash(const Dav1dPicture *pic) {
    uint64_t h = H0;
    h = hu(h, (uint64_t)pic->p.w << 40 ^ (uint64_t)pic->p.h << 16 ^ (uint64_t)pic->p.layout << 8 ^ pic->p.bpc);
    for (int pl = 0; pl < (pic->p.layout ? 3 : 1); pl++) {
        int w, hh, bps; pic_planes(&pic->p, pl, &w, &hh, &bps);
        const uint8_t *d = pic->data[pl];
        for (int y = 0; y < hh; y++) h = h64(h, d + y * pic->stride[!!pl], (size_t)w * bps);
    }
    return h;
}
/* everything visible on a picture apart from pixels and ownership */
static inline uint64_t pic_meta_hash(const Dav1dPicture *p) {
    uint64_t h = H0;
    h = hu(h, p->frame_hdr->frame_type); h = hu(h, p->frame_hdr->frame_offset);
    h = hu(h, p->frame_hdr->temporal_id | p->frame_hdr->spatial_id << 8);
    h = hu(h, p->frame_hdr->width[0]); h = hu(h, p->frame_hdr->width[1]); h = hu(h, p->frame_hdr->height);
    h = hu(h, p->frame_hdr->quant.yac); h = hu(h, p->frame_hdr->refresh_frame_flags);
    h = hu(h, p->frame_hdr->film_grain.data.seed);
    h = hu(h, p->seq_hdr->max_width); h = hu(h, p->seq_hdr->max_height); h = hu(h, p->seq_hdr->hbd);
    h = hu(h, p->m.timestamp); h = hu(h, p->m.duration); h = hu(h, p->m.offset); h = hu(h, p->m.size);
    h = hu(h, (uint64_t)(uintptr_t)p->m.user_data.data);
    if (p->content_light) { h = hu(h, p->content_light->max_content_light_level); h = hu(h, p->content_light->max_frame_average_light_level); }
    h = hu(h, 77);
    if (p->mastering_display) { h = hu(h, p->mastering_display->max_luminance); h = hu(h, p->mastering_display->primaries[0][0]); }
    h = hu(h, 78);
    h = hu(h, p->n_itut_t35);
    for (size_t i = 0; i < p->n_itut_t35; i++) {
        const Dav1dITUTT35 *t = &p->itut_t35[i];
        h = hu(h, t->country_code << 8 | t->country_code_extension_byte);
        h = hu(h, t->payload_size); h = h64(h, t->payload, t->payload_size);
    }
    return h;
}
static inline uint64_t pic_hash(const Dav1dPicture *p) { return hu(pic_pix_hash(p), pic_meta_hash(p)); }

/* packets */
typedef struct { uint8_t *p; size_t n; int64_t ts; } Pkt;
typedef struct { Pkt *v; int n, cap; } Pkts;
static inline void pk_add(Pkts *s, const AwBuf *b) {
    if (s->n == s->cap) { s->cap = s->cap * 2 + 8; s->v = realloc(s->v, s->cap * sizeof(*s->v)); }
    Pkt *k = &s->v[s->n];
    k->p = malloc(b->n ? b->n : 1); memcpy(k->p, b->p, b->n); k->n = b->n; k->ts = 1000 + s->n; s->n++;
}
static inline void pk_free(Pkts *s) { for (int i = 0; i < s->n; i++) free(s->v[i].p); free(s->v); memset(s, 0, sizeof(*s)); }

/* trace of API-visible results */
typedef struct { int kind; /*0 pic, 1 error*/ int res; uint64_t h; int64_t ts; } Ev;
#define MAXEV 256
typedef struct { Ev e[MAXEV]; int n; int overflow; } Trace;
static inline void tr_add(Trace *t, int kind, int res, uint64_t h, int64_t ts) {
    if (t->n < MAXEV) { t->e[t->n].kind = kind; t->e[t->n].res = res; t->e[t->n].h = h; t->e[t->n].ts = ts; t->n++; } else t->overflow = 1;
}
static inline int tr_eq(const Trace *a, const Trace *b) {
    if (a->n != b->n) return 0;
    for (int i = 0; i < a->n; i++)
        if (a->e[i].kind != b->e[i].kind || a->e[i].res != b->e[i].res || a->e[i].h != b->e[i].h || a->e[i].ts != b->e[i].ts) return 0;
    return 1;
}
static inline void tr_print(FILE *f, const char *pfx, const Trace *t) {
    for (int i = 0; i < t->n; i++)
        fprintf(f, "%s[%d] %s res=%d h=%016llx ts=%lld\n", pfx, i, t->e[i].kind ? "ERR" : "PIC", t->e[i].res,
                (unsigned long long)t->e[i].h, (long long)t->e[i].ts);
}
static void dec_quiet_log(void *c, const char *f, va_list ap) { (void)c; (void)f; (void)ap; }
static void dec_free_none(const uint8_t *d, void *c) { (void)d; (void)c; }

static inline void dec_settings(Dav1dSettings *s, int threads, int delay) {
    dav1d_default_settings(s);
    s->n_threads = threads; s->max_frame_delay = delay;
    s->logger.callback = dec_quiet_log;
}
static inline int dec_get(Dav1dContext *c, Trace *t) {
    Dav1dPicture p; memset(&p, 0, sizeof(p));
    const int r = dav1d_get_picture(c, &p);
    if (r == 0) { tr_add(t, 0, 0, pic_hash(&p), p.m.timestamp); dav1d_picture_unref(&p); }
    else if (r != DAV1D_ERR(EAGAIN)) tr_add(t, 1, r, 0, 0);
    return r;
}
static inline void dec_packet(Dav1dContext *c, const uint8_t *p, size_t n, int64_t ts, Trace *t) {
    Dav1dData d; memset(&d, 0, sizeof(d));
    if (dav1d_data_wrap(&d, p, n, dec_free_none, NULL)) { tr_add(t, 1, -1000, 0, ts); return; }
    d.m.timestamp = ts;
    for (int it = 0; d.sz > 0 && it < 1000; it++) {
        int r = dav1d_send_data(c, &d);
        if (r < 0 && r != DAV1D_ERR(EAGAIN)) { tr_add(t, 1, r, 0, 0); dav1d_data_unref(&d); }
        dec_get(c, t);
    }
}
static inline void dec_drain(Dav1dContext *c, Trace *t) {
    for (int it = 0; it < 1000; it++) if (dec_get(c, t) == DAV1D_ERR(EAGAIN)) break;
}
/* decode with a fresh decoder; returns 0 if it could be opened */
static inline int dec_all(const Dav1dSettings *s, const Pkts *k, Trace *t) {
    Dav1dContext *c = NULL;
    memset(t, 0, sizeof(*t));
    int r = dav1d_open(&c, s);
    if (r) return r;
    for (int i = 0; i < k->n; i++) dec_packet(c, k->v[i].p, k->v[i].n, k->v[i].ts, t);
    dec_drain(c, t);
    dav1d_close(&c);
    return 0;
}
#endif

/* A picture allocator with guard areas, chosen strides (also negative), chosen
 * prior content and counters. */
#ifndef PALLOC_H
#define PALLOC_H
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include "dav1d/dav1d.h"
#define PA_GUARD 256
typedef struct { int neg, extra /* multiples of 64 added to the stride */, fill /* -1: leave */, split /* one area for all planes */; atomic_int live, allocs, bad, fail_in /* fail when it reaches 0 by counting down; <0: never */; } PA;
typedef struct { uint8_t *base[3]; size_t sz[3]; const void *data[3]; uint64_t magic; } PAb;
static int pa_alloc(Dav1dPicture *p, void *cookie) {
    PA *a = cookie;
    if (atomic_load(&a->fail_in) >= 0 && atomic_fetch_sub(&a->fail_in, 1) <= 0) return DAV1D_ERR(ENOMEM);
    const int hbd = p->p.bpc > 8, aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127;
    const int ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420, ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
    PAb *b = calloc(1, sizeof(*b)); b->magic = 0x70616c6c6f63ull;
    for (int i = 0; i < (p->p.layout ? 3 : 1); i++) {
        const size_t st = ((size_t)(i ? aw >> ssh : aw) << hbd) + 64 * (size_t)a->extra, h = i ? ah >> ssv : ah, sz = st * h;
        uint8_t *m = NULL; if (posix_memalign((void **)&m, 64, sz + 64 + 2 * PA_GUARD)) return DAV1D_ERR(ENOMEM);
        b->base[i] = m; b->sz[i] = sz;
        if (a->fill >= 0) memset(m + PA_GUARD, a->fill, sz + 64);
        memset(m, 0xA5, PA_GUARD); memset(m + PA_GUARD + sz + 64, 0x5A, PA_GUARD);
        uint8_t *d = m + PA_GUARD; if (a->neg) d += (h - 1) * st;
        p->data[i] = d; b->data[i] = d; p->stride[!!i] = a->neg ? -(ptrdiff_t)st : (ptrdiff_t)st;
    }
    if (!p->p.layout) { p->data[1] = p->data[2] = NULL; p->stride[1] = 0; }
    p->allocator_data = b; atomic_fetch_add(&a->live, 1); atomic_fetch_add(&a->allocs, 1);
    return 0;
}
static void pa_release(Dav1dPicture *p, void *cookie) {
    PA *a = cookie; PAb *b = p->allocator_data;
    if (b->magic != 0x70616c6c6f63ull) { atomic_fetch_add(&a->bad, 100); return; }
    b->magic = 0;
    for (int i = 0; i < 3; i++) if (b->base[i]) {
        if (p->data[i] != b->data[i]) atomic_fetch_add(&a->bad, 1);
        for (int j = 0; j < PA_GUARD; j++) if (b->base[i][j] != 0xA5 || b->base[i][PA_GUARD + b->sz[i] + 64 + j] != 0x5A) { atomic_fetch_add(&a->bad, 1); break; }
        free(b->base[i]);
    }
    free(b); atomic_fetch_sub(&a->live, 1);
}
static inline void pa_init(PA *a, int neg, int extra, int fill) { memset(a, 0, sizeof(*a)); a->neg = neg; a->extra = extra; a->fill = fill; atomic_init(&a->fail_in, -1); }
static inline void pa_use(Dav1dSettings *s, PA *a) { s->allocator.cookie = a; s->allocator.alloc_picture_callback = pa_alloc; s->allocator.release_picture_callback = pa_release; }
#endif

/* Conformance monitor for S13: the specification requires every intermediate
 * value of the inverse transforms to fit a given number of bits; on streams that
 * break this, implementations may (and do) differ.  This file stands in for the
 * library's one-dimensional C transforms and notes when a value leaves half of the
 * allowed range. */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include "config.h"
#include "common/attributes.h"
#include "common/intops.h"
int mon_bad;
static inline int mon_clip(const int v, const int lo, const int hi) {
    if (v > hi / 2 || v < lo / 2) mon_bad = 1;
    return v < lo ? lo : v > hi ? hi : v;
}
#define dav1d_tx1d_fns mon_fns
#define dav1d_inv_wht4_1d_c mon_wht
#define iclip(a, b, c) mon_clip(a, b, c)
#include "src/itx_1d.c"
#undef iclip
#undef dav1d_tx1d_fns
#undef dav1d_inv_wht4_1d_c
static void go(const int s, const int t, int32_t *c, ptrdiff_t st, int lo, int hi) {
    const int n = 4 << s, m = n > 32 ? 32 : n;
    for (int i = 0; i < m; i++) (void)mon_clip(c[i * st], lo, hi);
    mon_fns[s][t](c, st, lo, hi);
    for (int i = 0; i < n; i++) (void)mon_clip(c[i * st], lo, hi);
}
#define W(s, t) static void w##s##_##t(int32_t *c, ptrdiff_t st, int lo, int hi) { go(s, t, c, st, lo, hi); }
W(0, 0) W(0, 1) W(0, 2) W(0, 3) W(1, 0) W(1, 1) W(1, 2) W(1, 3) W(2, 0) W(2, 1) W(2, 2) W(2, 3) W(3, 0) W(3, 2) W(4, 0)
typedef void (*fn1d)(int32_t *, ptrdiff_t, int, int);
const fn1d dav1d_tx1d_fns[5][4] = { { w0_0, w0_1, w0_2, w0_3 }, { w1_0, w1_1, w1_2, w1_3 }, { w2_0, w2_1, w2_2, w2_3 }, { w3_0, 0, w3_2, 0 }, { w4_0, 0, 0, 0 } };
void dav1d_inv_wht4_1d_c(int32_t *c, const ptrdiff_t st) {
    for (int i = 0; i < 4; i++) (void)mon_clip(c[i * st], -(1 << 14), 1 << 14);
    mon_wht(c, st);
}

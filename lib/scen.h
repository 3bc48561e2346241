/* Stream builders shared by the harnesses. */
#ifndef SCEN_H
#define SCEN_H
#include "dech.h"

/* pseudo-random tile payloads: n tiles of len bytes */
typedef struct { uint8_t buf[64][16384]; AwTile t[64]; } Tiles;
static Tiles *tiles_rnd(Tiles *T, int n, int len, uint64_t seed) {
    AwRng r = { seed * 7919 + 17 };
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < len; j++) T->buf[i][j] = (uint8_t)aw_rnd(&r);
        T->t[i].p = T->buf[i]; T->t[i].n = len;
    }
    return T;
}
static Tiles g_tiles;
/* write one frame with random payload */
static void put_frame(AwEnc *e, AwFrm *f, AwBuf *o, uint64_t seed, int len, int mode) {
    aw_derive(e, f);
    tiles_rnd(&g_tiles, aw_n_tiles(e), len, seed);
    aw_put_frame(e, f, g_tiles.t, o, mode);
}
#endif

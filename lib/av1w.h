/* AV1 bitstream *writer*, written from the AV1 specification (not from the
 * decoder under test).  It serialises sequence/frame headers, tile groups and
 * metadata OBUs, and keeps its own model of the eight reference slots so that
 * it knows, independently of the decoder, what every derived header value must
 * be. */
#ifndef AV1W_H
#define AV1W_H
#include <stddef.h>
#include <stdint.h>

typedef struct { uint8_t *p; size_t n, cap; } AwBuf;       /* bytes */
typedef struct { AwBuf b; unsigned bit; size_t nbits; } AwBits;

void awb_reset(AwBuf *b);
void awb_free(AwBuf *b);
void awb_put(AwBuf *b, const void *p, size_t n);
void awb_u8(AwBuf *b, unsigned v);

typedef struct {
    int profile, still, reduced;
    int timing; uint32_t units_tick, time_scale; int equal_pic; uint32_t ticks_m1;
    int dec_model, enc_delay_len; uint32_t units_dec_tick; int rem_len, pres_len;
    int disp_model, n_op;
    struct { int idc, level, tier, dm_present; uint32_t dbd, ebd; int low;
             int disp_present, disp_m1; } op[32];
    int wbits, hbits, w, h;
    int frame_ids, delta_id_len, id_len;
    int sb128, filter_intra, intra_edge;
    int interintra, masked, warped, dual, order_hint, jnt, refmvs;
    int sct, fimv; /* 0,1 or 2 = select per frame */
    int oh_bits;
    int superres, cdef, lr;
    int hbd /*0,1,2*/, mono, cdesc, pri, trc, mtx, range, ssx, ssy, chr, sep_uv;
    int fg;
} AwSeq;

typedef struct {
    int apply; unsigned seed; int update, ref_slot;
    int ny; uint8_t y[16][2]; int cfl; int nuv[2]; uint8_t uv[2][16][2];
    int scaling_m8, lag; int ar_y[24], ar_uv[2][25]; int ar_shift_m6, grain_shift;
    int cb_mult[2], cb_luma[2], cb_off[2]; /* raw syntax values per plane */
    int overlap, clip;
} AwGrain;

typedef struct {
    int show_existing, existing_idx;
    uint32_t pres_delay, frame_id;
    int type, show, showable, err_res;
    int disable_cdf_update, allow_sct, force_int_mv, size_override, order_hint, primary;
    int brt_present; uint32_t brt[32];
    int refresh;
    int has_ext, tid, sid;
    int found_ref;            /* -1: none; otherwise first i with found_ref=1 */
    int w, h;                 /* upscaled size (used if size_override && !found) */
    int sr, denom;            /* super resolution */
    int render, rw, rh;
    int intrabc;
    int short_sig, refidx[7];
    int hp, filter /*0..3, 4=switchable*/, sw_motion, use_refmvs;
    int no_end_update;
    int uniform, log2c, log2r, nc, nr, colw[64], rowh[64], ctx_tile, size_bytes;
    int yac, ydc, diff_uv, udc, uac, vdc, vac, qm, qmy, qmu, qmv;
    int seg, seg_map, seg_temporal, seg_data; int seg_en[8]; int seg_val[8][8];
    int dq, dq_res, dlf, dlf_res, dlf_multi;
    int lf_y0, lf_y1, lf_u, lf_v, lf_sharp, lf_de, lf_du, lf_rmask, lf_r[8], lf_mmask, lf_m[2];
    int cdef_damp, cdef_bits, cdef_y[8], cdef_uv[8];
    int lr[3], lr_shift, lr_extra, lr_uv;      /* lr[]: coded lr_type */
    int tx_select, comp, skip_mode, warp, reduced_tx;
    int gm_type[7]; int32_t gm[7][6];
    AwGrain fg;
} AwFrm;

/* derived values, as the specification defines them */
typedef struct {
    int valid;
    AwFrm f;                 /* syntax */
    int fw, uw, h, rw, rh;   /* frame width, upscaled width */
    int denom;
    int refidx[7];
    int cols, rows, log2c, log2r, min_log2c, max_log2c, min_log2r, max_log2r;
    int col_sb[65], row_sb[65];
    int seg_en_m[8], seg_val[8][8]; int preskip, last_active;
    int qidx[8], lossless[8], all_lossless;
    int lf_ref[8], lf_mode[2];
    int lf_y0, lf_y1, lf_u, lf_v, lf_sharp;
    int dq, dlf;
    int cdef_damp, cdef_bits, cdef_y[8], cdef_uv[8];
    int lr_type[3], lr_log2[2];
    int skip_allowed, skip_ref[2];
    int force_int_mv, allow_sct, err_res, showable, intrabc, hp, use_refmvs, warp;
    int refresh_ctx, primary, refresh;
    int32_t gm[7][6]; int gm_type[7];
    AwGrain fg;
    int bitdepth, ssx, ssy, mono;
    int showable_now;
} AwRef;

typedef struct {
    AwSeq seq;
    int seq_valid;
    AwRef ref[8];
    AwRef cur;               /* derivation of the last header written */
} AwEnc;

typedef struct { const uint8_t *p; size_t n; } AwTile;

void aw_seq_default(AwSeq *s, int w, int h);
void aw_frm_default(const AwEnc *e, AwFrm *f, int type);

void aw_obu(AwBuf *out, int type, int ext, int tid, int sid, int has_size,
            const uint8_t *payload, size_t n);
void aw_leb128(AwBuf *b, uint64_t v);
void aw_put_td(AwBuf *out);
void aw_put_seq(AwEnc *e, AwBuf *out);
size_t aw_seq_payload(const AwSeq *s, AwBuf *out);
/* mode bits for aw_put_frame */
#define AW_SPLIT   1   /* FRAME_HEADER + TILE_GROUP instead of FRAME */
#define AW_NOSIZE  2   /* last OBU without size field */
#define AW_TG1     4   /* one tile group per tile */
#define AW_REDUND  8   /* repeat the frame header as a redundant header */
#define AW_NOUPDATE 16 /* do not update reference state */
void aw_put_frame(AwEnc *e, const AwFrm *f, const AwTile *tiles, AwBuf *out, int mode);
void aw_put_show_existing(AwEnc *e, int idx, AwBuf *out);
int  aw_n_tiles(const AwEnc *e); /* of last derived header */
void aw_derive(AwEnc *e, const AwFrm *f); /* fills e->cur only */

/* metadata */
void aw_put_cll(AwBuf *o, int max_cll, int max_fall);
void aw_put_mdcv(AwBuf *o, const uint16_t prim[3][2], const uint16_t wp[2], uint32_t maxl, uint32_t minl);
void aw_put_t35(AwBuf *o, int cc, int ccext, const uint8_t *p, size_t n);

/* deterministic payload generator */
typedef struct { uint64_t s; } AwRng;
uint32_t aw_rnd(AwRng *r);
#endif

/* Field by field comparison of the reported headers with the writer's own
 * derivation from the syntax elements it coded. */
#ifndef HDRCMP_H
#define HDRCMP_H
#include "dech.h"
static char hc_msg[256];
#define HC(name, got, want) do { const long long g_ = (long long)(got), w_ = (long long)(want); if (g_ != w_) { snprintf(hc_msg, sizeof(hc_msg), "%s is %lld instead of %lld", name, g_, w_); return 1; } } while (0)
#define HCI(name, i, got, want) do { const long long g_ = (long long)(got), w_ = (long long)(want); if (g_ != w_) { snprintf(hc_msg, sizeof(hc_msg), "%s[%d] is %lld instead of %lld", name, (int)(i), g_, w_); return 1; } } while (0)
static int aw_ssx(const AwSeq *s) {
    if (s->profile != 1 && s->mono) return 1;
    if (s->cdesc && s->pri == 1 && s->trc == 13 && s->mtx == 0) return 0;
    return s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx : 1;
}
static int aw_ssy(const AwSeq *s) {
    if (s->profile != 1 && s->mono) return 1;
    if (s->cdesc && s->pri == 1 && s->trc == 13 && s->mtx == 0) return 0;
    return s->profile == 0 ? 1 : s->profile == 1 ? 0 : s->hbd == 2 ? s->ssx && s->ssy : 0;
}
static int aw_layout(const AwSeq *s) {
    if (s->profile != 1 && s->mono) return DAV1D_PIXEL_LAYOUT_I400;
    return aw_ssx(s) ? aw_ssy(s) ? DAV1D_PIXEL_LAYOUT_I420 : DAV1D_PIXEL_LAYOUT_I422 : DAV1D_PIXEL_LAYOUT_I444;
}
static int seq_cmp(const Dav1dSequenceHeader *h, const AwSeq *s) {
    const int red = s->reduced, mono = s->profile != 1 && s->mono, tm = !red && s->timing, dm = tm && s->dec_model;
    HC("profile", h->profile, s->profile);
    HC("still_picture", h->still_picture, s->still); HC("reduced_still_picture_header", h->reduced_still_picture_header, red);
    HC("max_width", h->max_width, s->w); HC("max_height", h->max_height, s->h);
    HC("width_n_bits", h->width_n_bits, s->wbits); HC("height_n_bits", h->height_n_bits, s->hbits);
    HC("layout", h->layout, aw_layout(s)); HC("monochrome", h->monochrome, mono);
    HC("ss_hor", h->ss_hor, aw_ssx(s)); HC("ss_ver", h->ss_ver, aw_ssy(s));
    HC("hbd", h->hbd, s->profile == 2 ? s->hbd : !!s->hbd);
    HC("color_description_present", h->color_description_present, s->cdesc);
    HC("pri", h->pri, s->cdesc ? s->pri : 2); HC("trc", h->trc, s->cdesc ? s->trc : 2); HC("mtrx", h->mtrx, s->cdesc ? s->mtx : 2);
    const int srgb = !mono && s->cdesc && s->pri == 1 && s->trc == 13 && s->mtx == 0;
    HC("color_range", h->color_range, srgb ? 1 : s->range);
    HC("chr", h->chr, !mono && aw_ssx(s) && aw_ssy(s) ? s->chr : 0);
    HC("separate_uv_delta_q", h->separate_uv_delta_q, mono ? 0 : s->sep_uv);
    HC("film_grain_present", h->film_grain_present, s->fg);
    HC("timing_info_present", h->timing_info_present, tm);
    HC("num_units_in_tick", h->num_units_in_tick, tm ? s->units_tick : 0); HC("time_scale", h->time_scale, tm ? s->time_scale : 0);
    HC("equal_picture_interval", h->equal_picture_interval, tm && s->equal_pic);
    HC("num_ticks_per_picture", h->num_ticks_per_picture, tm && s->equal_pic ? s->ticks_m1 + 1u : 0);
    HC("decoder_model_info_present", h->decoder_model_info_present, dm);
    HC("encoder_decoder_buffer_delay_length", h->encoder_decoder_buffer_delay_length, dm ? s->enc_delay_len : 0);
    HC("num_units_in_decoding_tick", h->num_units_in_decoding_tick, dm ? s->units_dec_tick : 0);
    HC("buffer_removal_delay_length", h->buffer_removal_delay_length, dm ? s->rem_len : 0);
    HC("frame_presentation_delay_length", h->frame_presentation_delay_length, dm ? s->pres_len : 0);
    HC("display_model_info_present", h->display_model_info_present, !red && s->disp_model);
    HC("num_operating_points", h->num_operating_points, red ? 1 : s->n_op);
    for (int i = 0; i < (red ? 1 : s->n_op); i++) {
        HCI("operating_points.idc", i, h->operating_points[i].idc, red ? 0 : s->op[i].idc);
        HCI("operating_points.major_level", i, h->operating_points[i].major_level, 2 + (s->op[i].level >> 2));
        HCI("operating_points.minor_level", i, h->operating_points[i].minor_level, s->op[i].level & 3);
        HCI("operating_points.tier", i, h->operating_points[i].tier, !red && s->op[i].level > 7 ? s->op[i].tier : 0);
        const int p = dm && s->op[i].dm_present, d = !red && s->disp_model && s->op[i].disp_present;
        HCI("operating_points.decoder_model_param_present", i, h->operating_points[i].decoder_model_param_present, p);
        HCI("operating_parameter_info.decoder_buffer_delay", i, h->operating_parameter_info[i].decoder_buffer_delay, p ? s->op[i].dbd : 0);
        HCI("operating_parameter_info.encoder_buffer_delay", i, h->operating_parameter_info[i].encoder_buffer_delay, p ? s->op[i].ebd : 0);
        HCI("operating_parameter_info.low_delay_mode", i, h->operating_parameter_info[i].low_delay_mode, p ? s->op[i].low : 0);
        HCI("operating_points.display_model_param_present", i, h->operating_points[i].display_model_param_present, d);
        HCI("operating_points.initial_display_delay", i, h->operating_points[i].initial_display_delay, d ? s->op[i].disp_m1 + 1 : 10);
    }
    const int ids = !red && s->frame_ids;
    HC("frame_id_numbers_present", h->frame_id_numbers_present, ids);
    HC("delta_frame_id_n_bits", h->delta_frame_id_n_bits, ids ? s->delta_id_len : 0); HC("frame_id_n_bits", h->frame_id_n_bits, ids ? s->id_len : 0);
    HC("sb128", h->sb128, s->sb128); HC("filter_intra", h->filter_intra, s->filter_intra); HC("intra_edge_filter", h->intra_edge_filter, s->intra_edge);
    HC("inter_intra", h->inter_intra, !red && s->interintra); HC("masked_compound", h->masked_compound, !red && s->masked);
    HC("warped_motion", h->warped_motion, !red && s->warped); HC("dual_filter", h->dual_filter, !red && s->dual);
    const int oh = !red && s->order_hint;
    HC("order_hint", h->order_hint, oh); HC("jnt_comp", h->jnt_comp, oh && s->jnt); HC("ref_frame_mvs", h->ref_frame_mvs, oh && s->refmvs);
    HC("order_hint_n_bits", h->order_hint_n_bits, oh ? s->oh_bits : 0);
    HC("screen_content_tools", h->screen_content_tools, red ? 2 : s->sct);
    HC("force_integer_mv", h->force_integer_mv, red || !s->sct ? 2 : s->fimv);
    HC("super_res", h->super_res, s->superres); HC("cdef", h->cdef, s->cdef); HC("restoration", h->restoration, s->lr);
    return 0;
}
static int grain_cmp(const Dav1dFilmGrainData *d, const AwGrain *g, int ssx, int ssy, int mono) {
    (void)ssx; (void)ssy; (void)mono;
    HC("film_grain.num_y_points", d->num_y_points, g->ny);
    for (int i = 0; i < g->ny; i++) { HCI("film_grain.y_points.value", i, d->y_points[i][0], g->y[i][0]); HCI("film_grain.y_points.scaling", i, d->y_points[i][1], g->y[i][1]); }
    HC("film_grain.chroma_scaling_from_luma", d->chroma_scaling_from_luma, g->cfl);
    const int np = 2 * g->lag * (g->lag + 1);
    for (int p = 0; p < 2; p++) {
        HCI("film_grain.num_uv_points", p, d->num_uv_points[p], g->nuv[p]);
        for (int i = 0; i < g->nuv[p]; i++) { HCI("film_grain.uv_points.value", i, d->uv_points[p][i][0], g->uv[p][i][0]); HCI("film_grain.uv_points.scaling", i, d->uv_points[p][i][1], g->uv[p][i][1]); }
        if (g->cfl || g->nuv[p]) for (int i = 0; i < np + !!g->ny; i++) HCI(p ? "film_grain.ar_coeffs_v" : "film_grain.ar_coeffs_u", i, d->ar_coeffs_uv[p][i], g->ar_uv[p][i]);
        if (g->nuv[p]) {
            HCI("film_grain.uv_mult", p, d->uv_mult[p], g->cb_mult[p] - 128); HCI("film_grain.uv_luma_mult", p, d->uv_luma_mult[p], g->cb_luma[p] - 128);
            HCI("film_grain.uv_offset", p, d->uv_offset[p], g->cb_off[p] - 256);
        }
    }
    HC("film_grain.scaling_shift", d->scaling_shift, g->scaling_m8 + 8); HC("film_grain.ar_coeff_lag", d->ar_coeff_lag, g->lag);
    if (g->ny) for (int i = 0; i < np; i++) HCI("film_grain.ar_coeffs_y", i, d->ar_coeffs_y[i], g->ar_y[i]);
    HC("film_grain.ar_coeff_shift", d->ar_coeff_shift, g->ar_shift_m6 + 6); HC("film_grain.grain_scale_shift", d->grain_scale_shift, g->grain_shift);
    HC("film_grain.overlap_flag", d->overlap_flag, g->overlap); HC("film_grain.clip_to_restricted_range", d->clip_to_restricted_range, g->clip);
    return 0;
}
/* r: the writer's derivation of the frame; s: the sequence header in force */
static int frm_cmp(const Dav1dFrameHeader *h, const AwSeq *s, const AwRef *r) {
    const AwFrm *f = &r->f;
    const int red = s->reduced, type = red ? 0 : f->type, show = red ? 1 : f->show, intra = type == 0 || type == 2;
    const int dm = !red && s->timing && s->dec_model, oh = !red && s->order_hint, mono = r->mono;
    HC("frame_type", h->frame_type, type); HC("show_frame", h->show_frame, show);
    HC("show_existing_frame", h->show_existing_frame, 0);
    HC("showable_frame", h->showable_frame, r->showable); HC("error_resilient_mode", h->error_resilient_mode, r->err_res);
    HC("temporal_id", h->temporal_id, f->has_ext ? f->tid : 0); HC("spatial_id", h->spatial_id, f->has_ext ? f->sid : 0);
    HC("frame_presentation_delay", h->frame_presentation_delay, show && dm && !s->equal_pic ? f->pres_delay : 0);
    HC("disable_cdf_update", h->disable_cdf_update, f->disable_cdf_update);
    HC("allow_screen_content_tools", h->allow_screen_content_tools, r->allow_sct); HC("force_integer_mv", h->force_integer_mv, r->force_int_mv);
    HC("frame_id", h->frame_id, !red && s->frame_ids ? f->frame_id : 0);
    HC("frame_size_override", h->frame_size_override, red ? 0 : type == 3 ? 1 : f->size_override);
    HC("frame_offset", h->frame_offset, oh ? f->order_hint : 0);
    HC("primary_ref_frame", h->primary_ref_frame, r->primary);
    HC("buffer_removal_time_present", h->buffer_removal_time_present, dm && f->brt_present);
    for (int i = 0; i < (red ? 1 : s->n_op); i++) {
        const int idc = s->op[i].idc, in = !idc || ((idc >> (f->has_ext ? f->tid : 0) & 1) && (idc >> ((f->has_ext ? f->sid : 0) + 8) & 1));
        HCI("operating_points.buffer_removal_time", i, h->operating_points[i].buffer_removal_time, dm && f->brt_present && s->op[i].dm_present && in ? f->brt[i] : 0);
    }
    HC("refresh_frame_flags", h->refresh_frame_flags, r->refresh);
    HC("width[0]", h->width[0], r->fw); HC("width[1]", h->width[1], r->uw); HC("height", h->height, r->h);
    HC("render_width", h->render_width, r->rw); HC("render_height", h->render_height, r->rh);
    HC("super_res.enabled", h->super_res.enabled, r->denom != 8); HC("super_res.width_scale_denominator", h->super_res.width_scale_denominator, r->denom);
    HC("allow_intrabc", h->allow_intrabc, r->intrabc);
    if (!intra) {
        HC("frame_ref_short_signaling", h->frame_ref_short_signaling, oh && f->short_sig);
        for (int i = 0; i < 7; i++) HCI("refidx", i, h->refidx[i], r->refidx[i]);
        HC("hp", h->hp, r->hp); HC("subpel_filter_mode", h->subpel_filter_mode, f->filter); HC("switchable_motion_mode", h->switchable_motion_mode, f->sw_motion);
    }
    HC("use_ref_frame_mvs", h->use_ref_frame_mvs, r->use_refmvs); HC("refresh_context", h->refresh_context, r->refresh_ctx);
    HC("tiling.uniform", h->tiling.uniform, f->uniform); HC("tiling.cols", h->tiling.cols, r->cols); HC("tiling.rows", h->tiling.rows, r->rows);
    HC("tiling.log2_cols", h->tiling.log2_cols, r->log2c); HC("tiling.log2_rows", h->tiling.log2_rows, r->log2r);
    HC("tiling.min_log2_cols", h->tiling.min_log2_cols, r->min_log2c); HC("tiling.max_log2_cols", h->tiling.max_log2_cols, r->max_log2c); HC("tiling.max_log2_rows", h->tiling.max_log2_rows, r->max_log2r);
    if (f->uniform) HC("tiling.min_log2_rows", h->tiling.min_log2_rows, r->min_log2r);
    for (int i = 0; i <= r->cols; i++) HCI("tiling.col_start_sb", i, h->tiling.col_start_sb[i], r->col_sb[i]);
    for (int i = 0; i <= r->rows; i++) HCI("tiling.row_start_sb", i, h->tiling.row_start_sb[i], r->row_sb[i]);
    const int mt = r->log2c || r->log2r;
    HC("tiling.update", h->tiling.update, mt ? f->ctx_tile : 0); HC("tiling.n_bytes", h->tiling.n_bytes, mt ? f->size_bytes : 0);
    HC("quant.yac", h->quant.yac, f->yac); HC("quant.ydc_delta", h->quant.ydc_delta, f->ydc);
    HC("quant.udc_delta", h->quant.udc_delta, f->udc); HC("quant.uac_delta", h->quant.uac_delta, f->uac);
    HC("quant.vdc_delta", h->quant.vdc_delta, f->vdc); HC("quant.vac_delta", h->quant.vac_delta, f->vac);
    HC("quant.qm", h->quant.qm, f->qm);
    if (f->qm) { HC("quant.qm_y", h->quant.qm_y, f->qmy); HC("quant.qm_u", h->quant.qm_u, f->qmu); HC("quant.qm_v", h->quant.qm_v, f->qmv); }
    HC("segmentation.enabled", h->segmentation.enabled, f->seg);
    if (f->seg) {
        HC("segmentation.update_map", h->segmentation.update_map, f->seg_map); HC("segmentation.temporal", h->segmentation.temporal, f->seg_temporal); HC("segmentation.update_data", h->segmentation.update_data, f->seg_data);
    }
    int any = 0;
    for (int i = 0; i < 8; i++) {
        const Dav1dSegmentationData *d = &h->segmentation.seg_data.d[i]; const int m = f->seg ? r->seg_en_m[i] : 0; const int *v = r->seg_val[i];
        any |= m;
        HCI("segmentation.delta_q", i, d->delta_q, m & 1 ? v[0] : 0); HCI("segmentation.delta_lf_y_v", i, d->delta_lf_y_v, m & 2 ? v[1] : 0);
        HCI("segmentation.delta_lf_y_h", i, d->delta_lf_y_h, m & 4 ? v[2] : 0); HCI("segmentation.delta_lf_u", i, d->delta_lf_u, m & 8 ? v[3] : 0);
        HCI("segmentation.delta_lf_v", i, d->delta_lf_v, m & 16 ? v[4] : 0); HCI("segmentation.ref", i, d->ref, m & 32 ? v[5] : -1);
        HCI("segmentation.skip", i, d->skip, !!(m & 64)); HCI("segmentation.globalmv", i, d->globalmv, !!(m & 128));
        HCI("segmentation.qidx", i, h->segmentation.qidx[i], r->qidx[i]); HCI("segmentation.lossless", i, h->segmentation.lossless[i], r->lossless[i]);
    }
    HC("segmentation.preskip", h->segmentation.seg_data.preskip, f->seg ? r->preskip : 0);
    if (any) HC("segmentation.last_active_segid", h->segmentation.seg_data.last_active_segid, r->last_active);
    HC("delta.q.present", h->delta.q.present, r->dq); HC("delta.q.res_log2", h->delta.q.res_log2, r->dq ? f->dq_res : 0);
    HC("delta.lf.present", h->delta.lf.present, r->dlf); HC("delta.lf.res_log2", h->delta.lf.res_log2, r->dlf ? f->dlf_res : 0); HC("delta.lf.multi", h->delta.lf.multi, r->dlf ? f->dlf_multi : 0);
    HC("all_lossless", h->all_lossless, r->all_lossless);
    HC("loopfilter.level_y[0]", h->loopfilter.level_y[0], r->lf_y0); HC("loopfilter.level_y[1]", h->loopfilter.level_y[1], r->lf_y1);
    HC("loopfilter.level_u", h->loopfilter.level_u, r->lf_u); HC("loopfilter.level_v", h->loopfilter.level_v, r->lf_v); HC("loopfilter.sharpness", h->loopfilter.sharpness, r->lf_sharp);
    if (!r->all_lossless && !r->intrabc) { HC("loopfilter.mode_ref_delta_enabled", h->loopfilter.mode_ref_delta_enabled, f->lf_de); if (f->lf_de) HC("loopfilter.mode_ref_delta_update", h->loopfilter.mode_ref_delta_update, f->lf_du); }
    for (int i = 0; i < 8; i++) HCI("loopfilter.ref_delta", i, h->loopfilter.mode_ref_deltas.ref_delta[i], r->lf_ref[i]);
    for (int i = 0; i < 2; i++) HCI("loopfilter.mode_delta", i, h->loopfilter.mode_ref_deltas.mode_delta[i], r->lf_mode[i]);
    const int cd = !r->all_lossless && !r->intrabc && s->cdef;
    HC("cdef.n_bits", h->cdef.n_bits, cd ? r->cdef_bits : 0);
    if (cd) {
        HC("cdef.damping", h->cdef.damping, r->cdef_damp);
        for (int i = 0; i < 1 << r->cdef_bits; i++) { HCI("cdef.y_strength", i, h->cdef.y_strength[i], r->cdef_y[i]); if (!mono) HCI("cdef.uv_strength", i, h->cdef.uv_strength[i], r->cdef_uv[i]); }
    } else HC("cdef.y_strength[0]", h->cdef.y_strength[0], 0);
    /* spec: lr_type 0 none, 1 switchable, 2 wiener, 3 sgrproj */
    for (int i = 0; i < 3; i++) HCI("restoration.type", i, h->restoration.type[i], r->lr_type[i]);
    if (r->lr_type[0] || r->lr_type[1] || r->lr_type[2]) { HC("restoration.unit_size[0]", h->restoration.unit_size[0], r->lr_log2[0]); if (!mono) HC("restoration.unit_size[1]", h->restoration.unit_size[1], r->lr_log2[1]); }
    HC("txfm_mode", h->txfm_mode, r->all_lossless ? 0 : f->tx_select ? 2 : 1);
    HC("switchable_comp_refs", h->switchable_comp_refs, !intra && f->comp);
    HC("skip_mode_allowed", h->skip_mode_allowed, r->skip_allowed); HC("skip_mode_enabled", h->skip_mode_enabled, r->skip_allowed && f->skip_mode);
    if (r->skip_allowed) { HC("skip_mode_refs[0]", h->skip_mode_refs[0], r->skip_ref[0]); HC("skip_mode_refs[1]", h->skip_mode_refs[1], r->skip_ref[1]); }
    HC("warp_motion", h->warp_motion, r->warp); HC("reduced_txtp_set", h->reduced_txtp_set, f->reduced_tx);
    for (int i = 0; i < 7; i++) { HCI("gmv.type", i, h->gmv[i].type, intra ? 0 : r->gm_type[i]); for (int j = 0; j < 6; j++) HCI("gmv.matrix", i * 10 + j, h->gmv[i].matrix[j], r->gm[i][j]); }
    const int fgp = s->fg && (show || r->showable) && f->fg.apply;
    HC("film_grain.present", h->film_grain.present, fgp);
    if (fgp) { HC("film_grain.seed", h->film_grain.data.seed, f->fg.seed); HC("film_grain.update", h->film_grain.update, type != 1 || f->fg.update); }
    if (fgp && r->fg.apply != 2) return grain_cmp(&h->film_grain.data, &r->fg, r->ssx, r->ssy, mono);
    HC("film_grain.num_y_points", h->film_grain.data.num_y_points, 0);
    return 0;
}
#endif

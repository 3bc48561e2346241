From a91f3922cfaa6adf9422f69aa739f8a3f0996a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 01/14] fix: recover after a show_existing_frame of an
 unavailable frame

The frame header was kept when the frame to be shown did not exist, so each
following OBU (including a new sequence header or key frame) was rejected
until the decoder got flushed.
---
 src/obu.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 78d652b..7924d58 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1570,7 +1570,8 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
 
     if (c->seq_hdr && c->frame_hdr) {
         if (c->frame_hdr->show_existing_frame) {
-            if (!c->refs[c->frame_hdr->existing_frame_idx].p.p.frame_hdr) goto error;
+            if (!c->refs[c->frame_hdr->existing_frame_idx].p.p.frame_hdr)
+                goto show_existing_error;
             switch (c->refs[c->frame_hdr->existing_frame_idx].p.p.frame_hdr->frame_type) {
             case DAV1D_FRAME_TYPE_INTER:
             case DAV1D_FRAME_TYPE_SWITCH:
@@ -1584,11 +1585,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             default:
                 break;
             }
-            if (!c->refs[c->frame_hdr->existing_frame_idx].p.p.data[0]) goto error;
+            if (!c->refs[c->frame_hdr->existing_frame_idx].p.p.data[0])
+                goto show_existing_error;
             if (c->strict_std_compliance &&
                 !c->refs[c->frame_hdr->existing_frame_idx].p.showable)
             {
-                goto error;
+                goto show_existing_error;
             }
             if (c->n_fc == 1) {
                 dav1d_thread_picture_ref(&c->out,
@@ -1730,6 +1732,9 @@ skip:
 
     return gb.ptr_end - gb.ptr_start;
 
+show_existing_error:
+    // drop the header, otherwise every following OBU would fail as well
+    c->frame_hdr = NULL;
 error:
     dav1d_data_props_copy(&c->cached_error_props, &in->m);
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
-- 
2.43.0


From 05e2e87628331084dca740b610f2101b885bee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 02/14] fix: keep the start of a temporal unit pending until a
 visible frame

The flag was attached to (and cleared by) the first frame of the temporal
unit even if that frame is hidden. When only the highest spatial layer is
output and the previous temporal unit lacked that layer, its cached picture
was then replaced by the next temporal unit's and never output.
---
 src/picture.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/picture.c b/src/picture.c
index 290bd09..daefbcc 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -202,10 +202,13 @@ int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f
     if (res) return res;
 
     // Don't clear these flags from c->frame_flags if the frame is not going to be output.
-    // This way they will be added to the next visible frame too.
-    const int flags_mask = ((f->frame_hdr->show_frame || c->output_invisible_frames) &&
-                            c->max_spatial_id == f->frame_hdr->spatial_id)
-                           ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO);
+    // This way they will be added to the next visible frame too. The start of a new
+    // temporal unit is signalled by its first visible frame, whatever its layer.
+    const int output = f->frame_hdr->show_frame || c->output_invisible_frames;
+    const int flags_mask =
+        (output ? 0 : PICTURE_FLAG_NEW_TEMPORAL_UNIT) |
+        (output && c->max_spatial_id == f->frame_hdr->spatial_id
+         ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO));
     p->flags = c->frame_flags;
     c->frame_flags &= flags_mask;
 
-- 
2.43.0


From e9ceff75a93631e172e30a09e94e9036941ee77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 03/14] fix: give a shown existing frame the pending picture
 flags

It kept the flags of the frame's first decoding instead, so that in a scalable
stream the start of its temporal unit was missed, or seen twice, when only the
highest spatial layer is output. A new sequence was reported repeatedly, too.
---
 src/obu.c     |  5 ++++-
 src/picture.c | 30 ++++++++++++++++++++----------
 src/picture.h |  6 ++++++
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index 7924d58..3693f67 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1595,6 +1595,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (c->n_fc == 1) {
                 dav1d_thread_picture_ref(&c->out,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
+                c->out.flags = dav1d_picture_take_flags(c, 1, c->out.p.frame_hdr->spatial_id);
                 dav1d_picture_copy_props(&c->out.p,
                                          c->content_light, c->content_light_ref,
                                          c->mastering_display, c->mastering_display_ref,
@@ -1604,7 +1605,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 dav1d_ref_dec(&c->itut_t35_ref);
                 c->itut_t35 = NULL;
                 c->n_itut_t35 = 0;
-                c->event_flags |= dav1d_picture_get_event_flags(&c->refs[c->frame_hdr->existing_frame_idx].p);
+                c->event_flags |= dav1d_picture_get_event_flags(&c->out);
             } else {
                 pthread_mutex_lock(&c->task_thread.lock);
                 // need to append this to the frame output queue
@@ -1649,6 +1650,8 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 dav1d_thread_picture_ref(out_delayed,
                                          &c->refs[c->frame_hdr->existing_frame_idx].p);
                 out_delayed->visible = 1;
+                out_delayed->flags =
+                    dav1d_picture_take_flags(c, 1, out_delayed->p.frame_hdr->spatial_id);
                 dav1d_picture_copy_props(&out_delayed->p,
                                          c->content_light, c->content_light_ref,
                                          c->mastering_display, c->mastering_display_ref,
diff --git a/src/picture.c b/src/picture.c
index daefbcc..761d975 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -189,6 +189,23 @@ void dav1d_picture_copy_props(Dav1dPicture *const p,
     if (itut_t35_ref) dav1d_ref_inc(itut_t35_ref);
 }
 
+enum PictureFlags dav1d_picture_take_flags(Dav1dContext *const c, const int output,
+                                           const int spatial_id)
+{
+    const enum PictureFlags flags = c->frame_flags;
+
+    // Don't clear these flags from c->frame_flags if the frame is not going to be output.
+    // This way they will be added to the next visible frame too. The start of a new
+    // temporal unit is signalled by its first visible frame, whatever its layer.
+    const int flags_mask =
+        (output ? 0 : PICTURE_FLAG_NEW_TEMPORAL_UNIT) |
+        (output && c->max_spatial_id == spatial_id
+         ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO));
+    c->frame_flags &= flags_mask;
+
+    return flags;
+}
+
 int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f,
                                const int bpc)
 {
@@ -201,16 +218,9 @@ int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f
                                   (void **) &p->progress);
     if (res) return res;
 
-    // Don't clear these flags from c->frame_flags if the frame is not going to be output.
-    // This way they will be added to the next visible frame too. The start of a new
-    // temporal unit is signalled by its first visible frame, whatever its layer.
-    const int output = f->frame_hdr->show_frame || c->output_invisible_frames;
-    const int flags_mask =
-        (output ? 0 : PICTURE_FLAG_NEW_TEMPORAL_UNIT) |
-        (output && c->max_spatial_id == f->frame_hdr->spatial_id
-         ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO));
-    p->flags = c->frame_flags;
-    c->frame_flags &= flags_mask;
+    p->flags = dav1d_picture_take_flags(c, f->frame_hdr->show_frame ||
+                                        c->output_invisible_frames,
+                                        f->frame_hdr->spatial_id);
 
     p->visible = f->frame_hdr->show_frame;
     p->showable = f->frame_hdr->showable_frame;
diff --git a/src/picture.h b/src/picture.h
index 88aee08..224f874 100644
--- a/src/picture.h
+++ b/src/picture.h
@@ -114,6 +114,12 @@ void dav1d_picture_copy_props(Dav1dPicture *p,
                               Dav1dITUTT35 *itut_t35, Dav1dRef *itut_t35_ref, size_t n_itut_t35,
                               const Dav1dDataProps *props);
 
+/**
+ * Take the flags pending for the next picture. Those that a picture of this
+ * visibility and layer doesn't settle stay pending.
+ */
+enum PictureFlags dav1d_picture_take_flags(Dav1dContext *c, int output, int spatial_id);
+
 /**
  * Get event flags from picture flags.
  */
-- 
2.43.0


From 2f6593a19351b2102f6a1f17dbe7452d246a126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 04/14] fix: keep the task scheduler's first frame in step with
 the frame ring

task_thread.first, the frame the workers' scan starts from, was advanced
only if the frame slot being reused or drained held a picture or an
error. After a partial drain the next slot can be empty while a later
one is in flight, so first stayed behind frame_thread.next and the scan
order no longer was the decoding order: a younger frame was examined
before the older one it references, never re-examined, and all threads
ended up waiting. Advance it whenever next advances.
---
 src/decode.c | 20 +++++++++-----------
 src/lib.c    | 18 +++++++++---------
 src/obu.c    | 20 +++++++++-----------
 3 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..d4c410a 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3343,17 +3343,15 @@ int dav1d_submit_frame(Dav1dContext *const c) {
             pthread_cond_wait(&f->task_thread.cond,
                               &c->task_thread.lock);
         out_delayed = &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
-        }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         const int error = f->task_thread.retval;
         if (error) {
             f->task_thread.retval = 0;
diff --git a/src/lib.c b/src/lib.c
index 8ced796..fe617d4 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -361,20 +361,20 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
         if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
             drained = 1;
         } else if (drained) {
             pthread_mutex_unlock(&c->task_thread.lock);
             break;
         }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         if (++c->frame_thread.next == c->n_fc)
             c->frame_thread.next = 0;
         pthread_mutex_unlock(&c->task_thread.lock);
diff --git a/src/obu.c b/src/obu.c
index 3693f67..d71f67c 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1619,17 +1619,15 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                                       &f->task_thread.ttd->lock);
                 Dav1dThreadPicture *const out_delayed =
                     &c->frame_thread.out_delayed[next];
-                if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-                    unsigned first = atomic_load(&c->task_thread.first);
-                    if (first + 1U < c->n_fc)
-                        atomic_fetch_add(&c->task_thread.first, 1U);
-                    else
-                        atomic_store(&c->task_thread.first, 0);
-                    atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                                   &first, UINT_MAX);
-                    if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                        c->task_thread.cur--;
-                }
+                unsigned first = atomic_load(&c->task_thread.first);
+                if (first + 1U < c->n_fc)
+                    atomic_fetch_add(&c->task_thread.first, 1U);
+                else
+                    atomic_store(&c->task_thread.first, 0);
+                atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                               &first, UINT_MAX);
+                if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+                    c->task_thread.cur--;
                 const int error = f->task_thread.retval;
                 if (error) {
                     c->cached_error = error;
-- 
2.43.0


From a59d2899abfb56955f0f9b98845809a8b0a46e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 05/14] fix: report the level of a reduced still picture header
 like any other

---
 src/obu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu.c b/src/obu.c
index d71f67c..009ad8e 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -97,7 +97,7 @@ static NOINLINE int parse_seq_hdr(Dav1dSequenceHeader *const hdr,
 
     if (hdr->reduced_still_picture_header) {
         hdr->num_operating_points = 1;
-        hdr->operating_points[0].major_level = dav1d_get_bits(gb, 3);
+        hdr->operating_points[0].major_level = 2 + dav1d_get_bits(gb, 3);
         hdr->operating_points[0].minor_level = dav1d_get_bits(gb, 2);
         hdr->operating_points[0].initial_display_delay = 10;
     } else {
-- 
2.43.0


From bcfef6d6d683a92b8e6f86aeac8233ca79f91fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 06/14] fix: forget pending picture flags when the decoder is
 flushed

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index fe617d4..42c6dd0 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -530,6 +530,7 @@ void dav1d_flush(Dav1dContext *const c) {
 
     c->drain = 0;
     c->cached_error = 0;
+    c->frame_flags = 0;
 
     for (int i = 0; i < 8; i++) {
         if (c->refs[i].p.p.frame_hdr)
-- 
2.43.0


From 9d7af0e31b340693287d3a5c12bd5f4f27ab64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 07/14] fix: drop the T.35 metadata of frames skipped by the
 frame type selection

---
 src/obu.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 009ad8e..9946942 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1714,6 +1714,13 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
     return gb.ptr_end - gb.ptr_start;
 
 skip:
+    // the T.35 metadata sent for a skipped frame doesn't belong to the next one
+    if (c->frame_hdr->show_frame || c->frame_hdr->show_existing_frame) {
+        dav1d_ref_dec(&c->itut_t35_ref);
+        c->itut_t35 = NULL;
+        c->n_itut_t35 = 0;
+    }
+
     // update refs with only the headers in case we skip the frame
     for (int i = 0; i < 8; i++) {
         if (c->frame_hdr->refresh_frame_flags & (1 << i)) {
-- 
2.43.0


From eabe34ad1cc8e39a43f87832f513354fbaf81354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 08/14] fix: release user data sent with an empty packet

dav1d_send_data() with no data but attached user data stored a reference
in the decoder's input slot, which the next packet overwrote without
releasing it, so the user data's free callback was never called.
---
 src/lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 42c6dd0..a8cfa59 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -444,7 +444,8 @@ int dav1d_send_data(Dav1dContext *const c, Dav1dData *const in)
     }
     if (c->in.data)
         return DAV1D_ERR(EAGAIN);
-    dav1d_data_ref(&c->in, in);
+    if (in->data)
+        dav1d_data_ref(&c->in, in);
 
     int res = gen_picture(c);
     if (!res)
-- 
2.43.0


From cdd13188d0d1ac57ab4c2630d91cf8281c37953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 09/14] fix: don't leak the T.35 metadata array when its
 context can't be allocated

---
 src/obu.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/obu.c b/src/obu.c
index 9946942..9581a51 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1517,7 +1517,11 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
-- 
2.43.0


From 3e9db3377df4b4d5be7ba86e2351dd144a93f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 10/14] fix: drop the pending T.35 metadata when a packet is
 refused

---
 src/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index a8cfa59..933b78d 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -418,6 +418,10 @@ static int gen_picture(Dav1dContext *const c)
         const ptrdiff_t res = dav1d_parse_obus(c, in);
         if (res < 0) {
             dav1d_data_unref_internal(in);
+            // the T.35 metadata sent for a lost frame doesn't belong to the next one
+            dav1d_ref_dec(&c->itut_t35_ref);
+            c->itut_t35 = NULL;
+            c->n_itut_t35 = 0;
         } else {
             assert((size_t)res <= in->sz);
             in->sz -= res;
-- 
2.43.0


From 2a431f3ceeeef75ef473a0681f22023f410ee2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 11/14] fix: report the error of a packet that is refused while
 a picture is ready

---
 src/lib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index 933b78d..be662df 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -428,8 +428,12 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
+        if (output_picture_ready(c, 0)) {
+            // the call that delivers the picture can't report the error
+            if (res < 0 && !c->cached_error)
+                c->cached_error = (int)res;
             break;
+        }
         if (res < 0)
             return (int)res;
     }
-- 
2.43.0


From bf91caa528b09df562a1b3468bcb83ebcba63ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 12/14] fix: report the failure to allocate the tile tasks

---
 src/decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index d4c410a..49affe8 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3305,7 +3305,7 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                 }
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
+            res = res ? DAV1D_ERR(ENOMEM) : f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From 64b53299e9c5839c1837ff84b33f4b4eb477e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 13/14] fix: handle allocation failures while adding the tile
 tasks of a frame thread

---
 src/thread_task.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..f544d7c 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -722,20 +722,30 @@ void *dav1d_worker_task(void *data) {
                     if (res) {
                         pthread_mutex_lock(&ttd->lock);
                         // memory allocation failed
-                        atomic_store(&f->task_thread.done[2 - p], 1);
+                        if (p == 1) {
+                            // no tasks have been added yet, and those of the
+                            // second pass depend on the ones of the first
+                            abort_frame(f, DAV1D_ERR(ENOMEM));
+                            reset_task_cur(c, ttd, t->frame_idx);
+                            atomic_store(&f->task_thread.init_done, 1);
+                            pthread_mutex_unlock(&ttd->lock);
+                            break;
+                        }
+                        atomic_store(&f->task_thread.done[0], 1);
                         atomic_store(&f->task_thread.error, -1);
-                        atomic_fetch_sub(&f->task_thread.task_counter,
-                                         f->frame_hdr->tiling.cols *
-                                         f->frame_hdr->tiling.rows + f->sbh);
-                        atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
-                        if (p == 2 && atomic_load(&f->task_thread.done[1])) {
-                            assert(!atomic_load(&f->task_thread.task_counter));
+                        atomic_store(&f->sr_cur.progress[1], FRAME_ERROR);
+                        const int num_tasks = f->frame_hdr->tiling.cols *
+                                              f->frame_hdr->tiling.rows + f->sbh;
+                        if (atomic_fetch_sub(&f->task_thread.task_counter,
+                                             num_tasks) == num_tasks)
+                        {
+                            assert(atomic_load(&f->task_thread.done[1]));
                             dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
                             f->n_tile_data = 0;
                             pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
                         }
+                        reset_task_cur(c, ttd, t->frame_idx);
+                        pthread_mutex_unlock(&ttd->lock);
                     }
                 }
                 pthread_mutex_lock(&ttd->lock);
-- 
2.43.0


From cf7d970d6831dedae4861477f6a0dd0c3ce2759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 14/14] fix: don't keep the size of the tile states that
 couldn't be allocated

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 49affe8..42af0f9 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


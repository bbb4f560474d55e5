From bfc1bf3ba63cf0b994b7cdd60e3d518f85013044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 01/32] fix: keep the warp backend when the optimizer rewrites
 a warp

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..661a234 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From 15dfa11df452f7cc1e4b287d490c2c3e570075cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 02/32] fix: absorbing an overview no longer edits the metadata
 of the input graph

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 661a234..70d9eff 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2319,6 +2319,9 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                # A shallow node copy still shares the metadata dictionary
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From 8a22cfbd12bef1032ae93b9542a4ea7e8b4381cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 03/32] fix: an overview of data with an unknown or exhausted
 number of overviews

---
 delayed_image/delayed_nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 70d9eff..7e808e6 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3124,14 +3124,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
-            int
+            int | None
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
-        return num_remain
+        num_available = self.subdata.num_overviews
+        if num_available is None:
+            return None
+        return max(num_available - self.meta['overview'], 0)
 
     def _finalize(self) -> ArrayLike:
         """
-- 
2.43.0


From be5c5b3f047f308f508f28c82a2bddd8679c6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 04/32] fix: optimizing an empty overview of concatenated
 channels

---
 delayed_image/delayed_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7e808e6..eba7219 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2608,8 +2608,7 @@ class DelayedDequantize(DelayedImage):
             # Swap order so quantize is before the warp
             new = new._opt_dequant_before_other()
             new = new.optimize(ctx)
-
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
@@ -3194,7 +3193,7 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        elif isinstance2(new.subdata, DelayedChannelConcat):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From a7252049a5b6d708bf9eb0ac6e74f5b45269329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 05/32] fix: swapping an overview and a warp keeps the canvas
 and the warp parameters

---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index eba7219..c0b1480 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3350,7 +3350,11 @@ class DelayedOverview(DelayedImage):
         new_outer = C
         new_inner_overview = outer_overview
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        warp_meta = ub.dict_isect(self.meta, {'dsize'})
+        warp_meta.update(
+            ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        )
+        new = new.warp(new_outer, **warp_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From 7b45d06e86465f65f115ad45e4acdd931c64426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 06/32] fix: swapping an overview and a crop keeps the canvas
 size

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c0b1480..c19c542 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3286,7 +3286,7 @@ class DelayedOverview(DelayedImage):
 
         if not np.all(np.isclose(np.eye(3), new_outer_warp)):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.meta['dsize'])
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From 15264f242c49e23d1c9af06659623e66f96239e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 07/32] fix: optimizing an upscaled empty crop of an overview

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c19c542..a2fd107 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2340,6 +2340,9 @@ class DelayedWarp(DelayedImage):
                     print('Tail')
                     tail.print_graph()
                 modified_tail = tail._opt_warp_after_crop()
+                if modified_tail is tail:
+                    # Empty crops cannot be swapped with the overview
+                    return self
                 if DEBUG:
                     print('Modified Tail')
                     modified_tail.print_graph()
-- 
2.43.0


From dff0713ba96945cbe91fe2cab228ef8769e98c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 08/32] fix: a power of two downscale keeps the border value of
 its warp

---
 delayed_image/delayed_nodes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a2fd107..c4c3423 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2503,13 +2503,17 @@ class DelayedWarp(DelayedImage):
             new = overview
             if new.dsize != dsize:
                 # The warp must have had an implicit crop
-                implicit_crop = (slice(0, dsize[1]), slice(0, dsize[0]))
-                new = new.crop(implicit_crop, clip=False, wrap=False)
+                if dsize[0] <= new.dsize[0] and dsize[1] <= new.dsize[1]:
+                    implicit_crop = (slice(0, dsize[1]), slice(0, dsize[0]))
+                    new = new.crop(implicit_crop)
+                else:
+                    # Growing the canvas needs the border of the original warp
+                    common_meta = ub.dict_isect(self.meta, self._algo_keys)
+                    new = new.warp(new_transform, dsize=dsize, **common_meta)
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append(
                         'Rewrite power of 2 warp as overview with crop'
                     )
-                new = new.optimize()
             else:
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append('Rewrite power of 2 warp as overview')
-- 
2.43.0


From a4ece0e9c5177b25aadfc8b523368a971300e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 09/32] fix: padded and lazy crops no longer ignore the
 requested channels

---
 delayed_image/delayed_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c4c3423..f9e2835 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -336,6 +336,7 @@ class ImageOpsMixin:
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
                 and (not pad)
+                and chan_idxs is None
             )
             if is_noop:
                 return _as_image_like(self)
@@ -353,7 +354,7 @@ class ImageOpsMixin:
                 )
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
-            new = self._padded_crop(space_slice, pad=pad)
+            new = self._padded_crop(space_slice, pad=pad, chan_idxs=chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
@@ -418,7 +419,7 @@ class ImageOpsMixin:
         # return self.warp(adjusted_transform, dsize=dsize, interpolation='linear')
         return self.warp(transform, dsize=dsize, interpolation='linear')
 
-    def _padded_crop(self, space_slice, pad=0):
+    def _padded_crop(self, space_slice, pad=0, chan_idxs=None):
         """
         Does the type of padded crop we want, but inefficiently using a warp.
         Reimplementing would be good, but this is good enough for now.
@@ -442,7 +443,7 @@ class ImageOpsMixin:
             int(data_crop_box.width.ravel()[0] + offset_d1 + extra_d1),
             int(data_crop_box.height.ravel()[0] + offset_d0 + extra_d0),
         )
-        new = self.crop(_data_slice)
+        new = self.crop(_data_slice, chan_idxs)
         if any([offset_d0, extra_d0, offset_d1, extra_d1]):
             # Use a warp to accomplish padding.
             # Having an explicit padding node would be better.
-- 
2.43.0


From 1364ea55c849457a5e5986728f8340361a4ab451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 10/32] fix: a channel slice or index survives optimization

---
 delayed_image/delayed_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f9e2835..0a848b5 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2715,6 +2715,14 @@ class DelayedCrop(DelayedImage):
             self.meta['dsize'] = (in_w, in_h)
 
         if chan_idxs is not None:
+            # Rewrites compose channel selections as lists of indexes
+            if isinstance(chan_idxs, slice):
+                if self.num_channels is not None:
+                    chan_idxs = list(
+                        range(*chan_idxs.indices(self.num_channels))
+                    )
+            elif not ub.iterable(chan_idxs):
+                chan_idxs = [chan_idxs]
             current_channels = self.channels
             if current_channels is not None:
                 new_channels = current_channels[chan_idxs]
-- 
2.43.0


From 3f346ff53b30f725dde76328ecf6fb2fb0c811e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 11/32] fix: optimized nan images keep an unnamed number of
 channels

---
 delayed_image/delayed_leafs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..d98a0bc 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -412,8 +412,11 @@ class DelayedNans(DelayedImageLeaf):
         assert space_slice is not None
         if chan_idxs is None:
             channels = self.channels
+            if channels is None:
+                channels = self.num_channels
+        elif self.channels is None:
+            channels = len(chan_idxs)
         else:
-            assert self.channels is not None
             channels = self.channels[chan_idxs]
         dsize = self.dsize
         assert dsize is not None
@@ -437,7 +440,10 @@ class DelayedNans(DelayedImageLeaf):
             DelayedImage
         """
         # Warping does nothing to nans, except maybe changing the dsize
-        new = self.__class__(dsize, channels=self.channels, **self._kwargs)
+        channels = self.channels
+        if channels is None:
+            channels = self.num_channels
+        new = self.__class__(dsize, channels=channels, **self._kwargs)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('Nans._optimized_warp')
         return new
-- 
2.43.0


From 3da99f79ece31c3d9fceac1c149e6a45e2ac228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 12/32] fix: undo_warp only rescales the returned warp of
 squashed nans

---
 delayed_image/delayed_nodes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0a848b5..8145e34 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1599,14 +1599,16 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
         if squash_nans:
-            if return_warp:
-                # hack the return undo_warp
-                assert undone_part.dsize is not None
-                w, h = undone_part.dsize
-                assert w is not None
-                assert h is not None
-                undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
             if isinstance2(undone_part, delayed_leafs.DelayedNans):
+                if return_warp:
+                    # hack the return undo_warp
+                    assert undone_part.dsize is not None
+                    w, h = undone_part.dsize
+                    assert w is not None
+                    assert h is not None
+                    undo_warp = (
+                        kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
+                    )
                 undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
-- 
2.43.0


From 94873a7dbfcf2545c6efe613c37626c0741da4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 13/32] fix: an xarray view of masked data keeps the masked
 values

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 8145e34..cd581fb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1648,7 +1648,8 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        # Masked values become nan when xarray is given the masked array
+        subfinal = np.asanyarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-- 
2.43.0


From 3ad32609cb0388b9c309f692a8064f9b0d1b53a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 14/32] fix: an xarray view knows its transform from its leaf

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cd581fb..f31bed5 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1681,6 +1681,9 @@ class DelayedAsXarray(DelayedImage):
         memo[self] = new
         return new
 
+    def _transform_from_subdata(self):
+        return kwimage.Affine.eye()
+
 
 class DelayedWarp(DelayedImage):
     """
-- 
2.43.0


From ce0c39c9b6be88e8c7c7771736d5705feb348135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 15/32] fix: concatenating masked channels keeps their masks

---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f31bed5..eb258ae 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -789,7 +789,10 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             final = stack[0]
         else:
             stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From cd337c76ff84ddfd2b46e5e07e9ca9c4dd5a7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 16/32] fix: a simulated overview has the size its node
 advertises

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index eb258ae..cc268ea 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3183,7 +3183,7 @@ class DelayedOverview(DelayedImage):
         sub_final = np.asarray(sub_final)
         final = kwimage.imresize(
             sub_final,
-            scale=1 / 2**overview,
+            dsize=self.meta['dsize'],
             interpolation='nearest',
             # antialias=True
         )
-- 
2.43.0


From 9db3dd1817365a9a99c20e0b07aff2c8a20d1266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 17/32] fix: a simulated overview of masked data keeps its mask

---
 delayed_image/delayed_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cc268ea..016989e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3180,13 +3180,18 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = np.asarray(sub_final)
+        sub_final = np.asanyarray(sub_final)
+        dsize = self.meta['dsize']
         final = kwimage.imresize(
-            sub_final,
-            dsize=self.meta['dsize'],
+            np.asarray(sub_final),
+            dsize=dsize,
             interpolation='nearest',
             # antialias=True
         )
+        if isinstance(sub_final, np.ma.MaskedArray):
+            mask = np.ma.getmaskarray(sub_final).astype(np.uint8)
+            mask = kwimage.imresize(mask, dsize=dsize, interpolation='nearest')
+            final = np.ma.array(final, mask=mask.astype(bool))
         return final
 
     def optimize(
-- 
2.43.0


From cc3c8dc79a4cbdfaf00a15687ed60a6d95c0fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 18/32] fix: nearest warps keep the mask of masked data

---
 delayed_image/delayed_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 016989e..c614b4c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1843,7 +1843,9 @@ class DelayedWarp(DelayedImage):
         # Deterministic nearest path for translated axis-aligned affines.
         # Pure positive scales use the imresize fastpath below, which is
         # substantially faster than the generic NumPy sampler.
-        if interpolation == 'nearest':
+        # The nearest fastpaths do not know about masks
+        is_masked = isinstance(prewarp, np.ma.MaskedArray)
+        if interpolation == 'nearest' and not is_masked:
             assert params is not None
             theta = abs(float(params.get('theta', 0)))
             shearx = abs(float(params.get('shearx', 0)))
@@ -1954,7 +1956,7 @@ class DelayedWarp(DelayedImage):
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-            if is_near_scale_only:
+            if is_near_scale_only and not is_masked:
                 final = kwimage.imresize(
                     prewarp, dsize=dsize, interpolation='nearest'
                 )
-- 
2.43.0


From 69cafcabe472c4766ad6ab51736ee9ae4d809dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 19/32] fix: nearest warps onto a canvas larger than the moved
 image

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c614b4c..1eb2fbe 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1878,8 +1878,8 @@ class DelayedWarp(DelayedImage):
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = np.clip(yi, 0, in_h - 1)[:, None]
+                        xx = np.clip(xi, 0, in_w - 1)[None, :]
                         final[valid] = prewarp[yy, xx][valid]
                 else:
                     num_chan = prewarp.shape[2]
@@ -1887,8 +1887,8 @@ class DelayedWarp(DelayedImage):
                         (out_h, out_w, num_chan), fill, dtype=prewarp.dtype
                     )
                     if valid.any():
-                        yy = yi[:, None]
-                        xx = xi[None, :]
+                        yy = np.clip(yi, 0, in_h - 1)[:, None]
+                        xx = np.clip(xi, 0, in_w - 1)[None, :]
                         sampled = prewarp[yy, xx]
                         final[valid, :] = sampled[valid, :]
                 if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-- 
2.43.0


From d8f03db61261d86224aa1bae3084754fd5f92b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 20/32] fix: nearest warps always apply their own transform

---
 delayed_image/delayed_nodes.py | 53 ++--------------------------------
 1 file changed, 3 insertions(+), 50 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1eb2fbe..3d8cd1f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1911,10 +1911,8 @@ class DelayedWarp(DelayedImage):
         )
         if matrix_mode == 'forward':
             M = np.asarray(transform)
-            alt_M = np.asarray(transform.inv())
         else:
             M = np.asarray(transform.inv())
-            alt_M = np.asarray(transform)
 
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
@@ -1974,9 +1972,7 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-            # Robustness for runtime convention mismatches: evaluate both
-            # conventions and keep the better-scoring result.
-            cand1 = kwimage.warp_affine(
+            final = kwimage.warp_affine(
                 prewarp,
                 M,
                 dsize=dsize,
@@ -1986,42 +1982,6 @@ class DelayedWarp(DelayedImage):
                 origin_convention='corner',
                 backend=backend,
             )
-            cand2 = kwimage.warp_affine(
-                prewarp,
-                alt_M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-
-            src_fin = np.isfinite(prewarp)
-            src_uniq = (
-                int(np.unique(prewarp[src_fin]).size) if src_fin.any() else 0
-            )
-
-            def _score(arr):
-                fin = np.isfinite(arr)
-                fin_ratio = float(fin.mean()) if fin.size else 0.0
-                uniq = int(np.unique(arr[fin]).size) if fin.any() else 0
-                # Prefer outputs with finite coverage and value diversity close
-                # to source for nearest-neighbor upscales.
-                uniq_gap = abs(uniq - src_uniq)
-                return (fin_ratio, -uniq_gap, uniq)
-
-            score1 = _score(cand1)
-            score2 = _score(cand2)
-            use_primary = score1 >= score2
-            final = cand1 if use_primary else cand2
-
-            # Last-resort rescue for pathological runtime stacks where both
-            # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
-                final = kwimage.imresize(
-                    prewarp, dsize=dsize, interpolation='nearest'
-                )
 
             if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
                 print(
@@ -2030,16 +1990,9 @@ class DelayedWarp(DelayedImage):
                         'dtype': str(prewarp.dtype),
                         'backend': backend,
                         'matrix_mode': matrix_mode,
-                        'source_unique': src_uniq,
-                        'score_primary': score1,
-                        'score_alt': score2,
-                        'chosen': 'primary' if use_primary else 'alt',
                         'is_near_scale_only': is_near_scale_only,
-                        'used_imresize_rescue': bool(
-                            max(score1[0], score2[0]) < 0.05
-                        ),
-                        'primary_preview': np.unique(cand1)[0:8].tolist(),
-                        'alt_preview': np.unique(cand2)[0:8].tolist(),
+                        'used_imresize_fastpath': False,
+                        'preview': np.unique(final)[0:8].tolist(),
                     },
                 )
         else:
-- 
2.43.0


From 1f946c1c7edb1a0f771b36805b318077d5196dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 21/32] fix: integer channel selection of concatenated parts

Negative indexes selected from the first part instead of the last, and selecting by position required every part to have channel names.
---
 delayed_image/delayed_nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3d8cd1f..1c4fde1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -920,9 +920,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
-            top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
+            # Negative indexes count from the last channel
+            total = self.num_channels
+            top_idx_mapping = [
+                idx + total if idx < 0 else idx for idx in channels
+            ]
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
-- 
2.43.0


From af974dc8c1c110090329ec27e43598a6789a2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 22/32] fix: channels can be selected with a slice as
 documented

---
 delayed_image/delayed_nodes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1c4fde1..e6da405 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -916,6 +916,8 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
         if isinstance(channels, list):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
@@ -947,10 +949,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
@@ -1406,11 +1407,13 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
+        if channels is None:
+            return self
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
         if isinstance(channels, list):
             top_idx_mapping = [int(x) for x in channels]
         else:
-            if channels is None and lazy:
-                return self
             current_channels = self.channels
             if current_channels is None:
                 raise ValueError(
-- 
2.43.0


From 6a9a606f7d0744214f6b3b3c062a060c00ef5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 23/32] fix: close the ENVI header when reading it fails

---
 delayed_image/lazy_loaders.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..52d5f0d 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1150,28 +1150,24 @@ def _read_envi_header(file):
     References:
         https://github.com/spectralpython/spectral
     """
-    f = open(file, 'r')
-
-    try:
-        starts_with_ENVI = f.readline().strip().startswith('ENVI')
-    except UnicodeDecodeError:
-        msg = (
-            'File does not appear to be an ENVI header (appears to be a '
-            'binary file).'
-        )
-        f.close()
-        raise Exception(msg)
-    else:
-        if not starts_with_ENVI:
+    with open(file, 'r') as f:
+        try:
+            starts_with_ENVI = f.readline().strip().startswith('ENVI')
+        except UnicodeDecodeError:
             msg = (
-                'File does not appear to be an ENVI header (missing "ENVI" '
-                'at beginning of first line).'
+                'File does not appear to be an ENVI header (appears to be a '
+                'binary file).'
             )
-            f.close()
             raise Exception(msg)
+        else:
+            if not starts_with_ENVI:
+                msg = (
+                    'File does not appear to be an ENVI header (missing "ENVI" '
+                    'at beginning of first line).'
+                )
+                raise Exception(msg)
 
-    lines = f.readlines()
-    f.close()
+        lines = f.readlines()
 
     dict = {}
     have_nonlowercase_param = False
-- 
2.43.0


From 3a56508b8f440b7b0994ddb23b91c2b5582f5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 24/32] fix: a nearest rescale no longer stretches onto another
 canvas

---
 delayed_image/delayed_nodes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e6da405..7bfb17a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1959,7 +1959,14 @@ class DelayedWarp(DelayedImage):
             )
             # Deterministic fast-path: nearest + pure positive scale should
             # behave like nearest resize regardless of affine convention.
-            if is_near_scale_only and not is_masked:
+            # This only applies if the canvas has the size of the scaled data.
+            in_h, in_w = prewarp.shape[0:2]
+            fits_canvas = (
+                dsize is not None
+                and abs(in_w * sx - dsize[0]) < 1
+                and abs(in_h * sy - dsize[1]) < 1
+            )
+            if is_near_scale_only and fits_canvas and not is_masked:
                 final = kwimage.imresize(
                     prewarp, dsize=dsize, interpolation='nearest'
                 )
-- 
2.43.0


From c132731142c6b564bf788827bf096f5ed9ca85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 25/32] fix: a crop outside of a warped image keeps its
 transform

---
 delayed_image/delayed_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7bfb17a..48408e7 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3033,6 +3033,18 @@ class DelayedCrop(DelayedImage):
         )
 
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
+
+        # The window is clipped when it starts outside of the source data
+        requested = inner_slice[0:2]
+        clipped = new_inner.meta['space_slice'][0:2]
+        shift_y, shift_x = (
+            c.start - r.start for c, r in zip(clipped, requested)
+        )
+        if shift_x or shift_y:
+            outer_transform = kwimage.Affine.coerce(
+                outer_transform
+            ) @ kwimage.Affine.translate((shift_x, shift_y))
+
         new_outer = new_inner.warp(outer_transform, **warp_meta)
         if TRACE_OPTIMIZE:
             new_outer._opt_logs.extend(self.subdata.subdata._opt_logs)
-- 
2.43.0


From 611309cfc32b0f93d964b0ff53f40c0d3c95b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 26/32] fix: select the band of an image without a channel axis

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 48408e7..ad23ee4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2721,6 +2721,9 @@ class DelayedCrop(DelayedImage):
             full_slice = space_slice
         else:
             full_slice = space_slice + (chan_idxs,)
+            if len(sub_final.shape) == 2:
+                # images without a channel axis have a single band
+                sub_final = kwarray.atleast_nd(sub_final, 3)
         # final = sub_final[space_slice]
         final = sub_final[full_slice]
         final = kwarray.atleast_nd(final, 3)
-- 
2.43.0


From fd402a4388df4add58e3df63c66b8a442ddce48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 27/32] fix: the xarray view of an image without a channel axis

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ad23ee4..c502467 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1662,8 +1662,8 @@ class DelayedAsXarray(DelayedImage):
         coords = {}
         if channels is not None:
             coords['c'] = channels.code_list()
-            if len(subfinal.shape) == 2:
-                subfinal = subfinal[:, :, None]
+        if len(subfinal.shape) == 2:
+            subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
         return final
 
-- 
2.43.0


From ee7b97f10635ba3548d02d783fea59ff71c51a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 28/32] fix: windows beyond the edge of a file are empty
 instead of an error

---
 delayed_image/lazy_loaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 52d5f0d..d753252 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1086,10 +1086,11 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
+        start = 0 if part.start is None else min(D, max(0, part.start))
         stop = D if part.stop is None else min(D, part.stop)
         if stop < 0:
             stop = D + stop
+        stop = max(start, stop)
         assert part.step is None
         part = slice(start, stop)
         return part
-- 
2.43.0


From 135422de291e7edff5934c60accad5c2b9849780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 29/32] fix: reading no bands of a file failed

---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index d753252..1eafdd7 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -771,6 +771,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return image
 
     def _compat_gdal_read(self, ds, band_indices, gdalkw, nodata_method):
+        if len(band_indices) == 0:
+            shape = (gdalkw['win_ysize'], gdalkw['win_xsize'], 0)
+            return np.empty(shape, dtype=self.dtype)
         selected_bands = tuple(self._read_bands[idx] for idx in band_indices)
         if nodata_method is None:
             selected_nodata_values = None
-- 
2.43.0


From 5d50010df993a6e70b431f3cb8bbc3179357f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 30/32] fix: the dataset level read of an overview without a
 dataset read the full image

---
 delayed_image/lazy_loaders.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 1eafdd7..e4c50b2 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -655,8 +655,12 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
         overview_band0 = default_band0.GetOverview(overview - 1)
         overview_ds = overview_band0.GetDataset()
-        if overview_ds is None:
-            return ds
+        if overview_ds is None or (
+            overview_ds.RasterXSize != overview_band0.XSize
+            or overview_ds.RasterYSize != overview_band0.YSize
+        ):
+            # Not all drivers provide a dataset for each overview
+            raise ValueError('Overview={} has no dataset'.format(overview))
         return overview_ds
 
     @ub.memoize_property
-- 
2.43.0


From 33d6a377a9394c403badd1c4c2473967eccdc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 31/32] fix: keep the resolution of mirrored axes when warps
 read overviews

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c502467..2de02d0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2453,7 +2453,8 @@ class DelayedWarp(DelayedImage):
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-        sx, sy = params['scale']
+        # A mirrored axis has a negative scale
+        sx, sy = map(abs, params['scale'])
         if sx > 0.5 or sy > 0.5:
             return self
 
-- 
2.43.0


From db0ab108655bfadda76af515afb8c35cebdecbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 32/32] fix: antialias mirrored warps instead of failing

---
 delayed_image/delayed_nodes.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2de02d0..be8698e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1928,6 +1928,19 @@ class DelayedWarp(DelayedImage):
             assert params is not None
             sx, sy = params['scale']
             use_antialias = (sx < 1) or (sy < 1)
+            if sy < 0:
+                # The antialiasing of kwimage fails for mirrored transforms,
+                # so mirror the data before it is warped.
+                use_antialias = (sx < 1) or (-sy < 1)
+                flip = kwimage.Affine.affine(
+                    scale=(1, -1), offset=(0, prewarp.shape[0])
+                )
+                prewarp = prewarp[::-1]
+                transform = transform @ flip
+                if matrix_mode == 'forward':
+                    M = np.asarray(transform)
+                else:
+                    M = np.asarray(transform.inv())
         else:
             use_antialias = False
 
-- 
2.43.0


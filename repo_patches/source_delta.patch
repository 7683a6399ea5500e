From 0004e61f6d467f7cdf06947f74862e45b599d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/69] fix: nearest axis-aligned warp indexed past the image
 when the output is larger

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..ebca475 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1856,6 +1856,10 @@ class DelayedWarp(DelayedImage):
                 valid_x = (xi >= 0) & (xi < in_w)
                 valid_y = (yi >= 0) & (yi < in_h)
                 valid = valid_y[:, None] & valid_x[None, :]
+                # Out of bounds places are masked out by ``valid``, but they
+                # must not be used as indexes.
+                xi = np.where(valid_x, xi, 0)
+                yi = np.where(valid_y, yi, 0)
 
                 fill = (
                     border_value[0]
-- 
2.43.0


From 169ff836152fd26eac7b5eb04ca039149f1971f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 02/69] fix: nearest scale-only warp stretched the image over
 an explicit output size

---
 delayed_image/delayed_nodes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ebca475..b782510 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1842,13 +1842,21 @@ class DelayedWarp(DelayedImage):
                 theta < 1e-9 and shearx < 1e-9 and sx > 0 and sy > 0
             )
             has_translation = abs(tx) > 1e-9 or abs(ty) > 1e-9
+            out_w, out_h = map(int, dsize)
+            in_h, in_w = prewarp.shape[0:2]
+            # A resize stretches its input over the whole output, which only
+            # agrees with the transform if the output canvas is the (rounded)
+            # extent of the scaled image.
+            is_resize = (
+                not has_translation
+                and abs(out_w - sx * in_w) < 1
+                and abs(out_h - sy * in_h) < 1
+            )
             if (
                 is_axis_aligned
-                and has_translation
+                and not is_resize
                 and not isinstance(border_value, str)
             ):
-                out_w, out_h = map(int, dsize)
-                in_h, in_w = prewarp.shape[0:2]
                 x_in = (np.arange(out_w) - tx) / sx
                 y_in = (np.arange(out_h) - ty) / sy
                 xi = np.floor(x_in).astype(int)
-- 
2.43.0


From 1214dca820395cd249515f5dabe02ba1cfd6ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 03/69] fix: nearest warp could apply the inverse of the
 requested transform

---
 delayed_image/delayed_nodes.py | 91 ++++------------------------------
 1 file changed, 10 insertions(+), 81 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b782510..ff2d035 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1910,10 +1910,8 @@ class DelayedWarp(DelayedImage):
         )
         if matrix_mode == 'forward':
             M = np.asarray(transform)
-            alt_M = np.asarray(transform.inv())
         else:
             M = np.asarray(transform.inv())
-            alt_M = np.asarray(transform)
 
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
@@ -1973,85 +1971,16 @@ class DelayedWarp(DelayedImage):
                 final = kwarray.atleast_nd(final, 3, front=False)
                 return final
 
-            # Robustness for runtime convention mismatches: evaluate both
-            # conventions and keep the better-scoring result.
-            cand1 = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-            cand2 = kwimage.warp_affine(
-                prewarp,
-                alt_M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
-
-            src_fin = np.isfinite(prewarp)
-            src_uniq = (
-                int(np.unique(prewarp[src_fin]).size) if src_fin.any() else 0
-            )
-
-            def _score(arr):
-                fin = np.isfinite(arr)
-                fin_ratio = float(fin.mean()) if fin.size else 0.0
-                uniq = int(np.unique(arr[fin]).size) if fin.any() else 0
-                # Prefer outputs with finite coverage and value diversity close
-                # to source for nearest-neighbor upscales.
-                uniq_gap = abs(uniq - src_uniq)
-                return (fin_ratio, -uniq_gap, uniq)
-
-            score1 = _score(cand1)
-            score2 = _score(cand2)
-            use_primary = score1 >= score2
-            final = cand1 if use_primary else cand2
-
-            # Last-resort rescue for pathological runtime stacks where both
-            # matrix conventions collapse to mostly NaNs.
-            if max(score1[0], score2[0]) < 0.05:
-                final = kwimage.imresize(
-                    prewarp, dsize=dsize, interpolation='nearest'
-                )
-
-            if os.environ.get('DELAYED_IMAGE_WARP_DEBUG', ''):
-                print(
-                    'DelayedWarp nearest matrix debug:',
-                    {
-                        'dtype': str(prewarp.dtype),
-                        'backend': backend,
-                        'matrix_mode': matrix_mode,
-                        'source_unique': src_uniq,
-                        'score_primary': score1,
-                        'score_alt': score2,
-                        'chosen': 'primary' if use_primary else 'alt',
-                        'is_near_scale_only': is_near_scale_only,
-                        'used_imresize_rescue': bool(
-                            max(score1[0], score2[0]) < 0.05
-                        ),
-                        'primary_preview': np.unique(cand1)[0:8].tolist(),
-                        'alt_preview': np.unique(cand2)[0:8].tolist(),
-                    },
-                )
-        else:
-            final = kwimage.warp_affine(
-                prewarp,
-                M,
-                dsize=dsize,
-                interpolation=interpolation,
-                antialias=use_antialias,
-                border_value=warp_border_value,
-                origin_convention='corner',
-                backend=backend,
-            )
+        final = kwimage.warp_affine(
+            prewarp,
+            M,
+            dsize=dsize,
+            interpolation=interpolation,
+            antialias=use_antialias,
+            border_value=warp_border_value,
+            origin_convention='corner',
+            backend=backend,
+        )
 
         # final = kwimage.warp_projective(sub_data_, M, dsize=dsize, flags=flags)
         # Ensure that the last dimension is channels
-- 
2.43.0


From 56783c1ff3d829d755a2aadadffd6f8d37395302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 04/69] fix: antialiased warps crashed on transforms with a
 reflection

---
 delayed_image/delayed_nodes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index ff2d035..7447216 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1921,10 +1921,20 @@ class DelayedWarp(DelayedImage):
         elif bool(antialias):
             assert params is not None
             sx, sy = params['scale']
-            use_antialias = (sx < 1) or (sy < 1)
+            # The sign of a scale factor is a reflection, not a downsample
+            use_antialias = (abs(sx) < 1) or (abs(sy) < 1)
         else:
             use_antialias = False
 
+        if use_antialias and np.linalg.det(M[0:2, 0:2]) < 0:
+            # kwimage cannot antialias transforms that contain a reflection, so
+            # reflect the input exactly, and warp by what remains.
+            reflect_x = np.array(
+                [[-1, 0, prewarp.shape[1]], [0, 1, 0], [0, 0, 1]]
+            )
+            prewarp = prewarp[:, ::-1]
+            M = M @ reflect_x
+
         warp_border_value = border_value
         if (
             interpolation == 'nearest'
-- 
2.43.0


From d522f381c8a42899701dc2f7acbbf9161266c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 05/69] fix: optimize dropped the backend requested for a warp

---
 delayed_image/delayed_nodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7447216..3889ab2 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1757,6 +1757,7 @@ class DelayedWarp(DelayedImage):
             'antialias',
             'border_value',
             'noop_eps',
+            'backend',
         ]
 
     @property
-- 
2.43.0


From 1803ccd0a05729234bbec5e045d2ce2024eb45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 06/69] fix: fusing a padded crop changed how the inner warp
 was resampled

---
 delayed_image/delayed_nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3889ab2..666f1b5 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2111,6 +2111,13 @@ class DelayedWarp(DelayedImage):
         # most recent
         dsize = self.meta['dsize']
         common_meta = ub.dict_isect(self.meta, self._algo_keys)
+        tf2_mat = np.asarray(tf2)
+        if np.all(tf2_mat == kwimage.Affine.translate(np.round(tf2_mat[0:2, 2]))):
+            # A whole pixel translation (e.g. a padded crop) does not resample,
+            # so the result must be resampled how the inner warp asks for it.
+            inner_meta = self.subdata.meta
+            for key in ['interpolation', 'antialias', 'backend']:
+                common_meta[key] = inner_meta[key]
         new_transform = tf2 @ tf1
         new = self.__class__(
             inner_data, new_transform, dsize=dsize, **common_meta
-- 
2.43.0


From c2c1742962b24539b389dd3defdbc78b5162e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 07/69] fix: optimizing an overview of a warp lost its output
 size and resampling options

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 666f1b5..495d2bb 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3304,7 +3304,8 @@ class DelayedOverview(DelayedImage):
         new_outer = C
         new_inner_overview = outer_overview
         new = self.subdata.subdata.get_overview(new_inner_overview)
-        new = new.warp(new_outer)
+        common_meta = ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
+        new = new.warp(new_outer, dsize=self.dsize, **common_meta)
         if TRACE_OPTIMIZE:
             new._opt_logs.extend(self.subdata._opt_logs)
             new._opt_logs.append('_opt_warp_after_overview')
-- 
2.43.0


From 9588b9ff8e283439c53adf1947cc802ec3a6bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 08/69] fix: optimizing an overview of a crop changed its size

---
 delayed_image/delayed_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 495d2bb..f3740b3 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3238,9 +3238,12 @@ class DelayedOverview(DelayedImage):
         # Move the crop to the outside
         new = new.crop(outer_crop, chan_idxs=chan_idxs)
 
-        if not np.all(np.isclose(np.eye(3), new_outer_warp)):
+        if (
+            not np.all(np.isclose(np.eye(3), new_outer_warp))
+            or new.dsize != self.dsize
+        ):
             # we might have to apply an additional warp at the end.
-            new = new.warp(new_outer_warp)
+            new = new.warp(new_outer_warp, dsize=self.dsize)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_crop_after_overview')
         return new
-- 
2.43.0


From a065d3de711fcdb23eebd12957cbed349ce946ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 09/69] fix: simulated overviews rounded down odd sizes that
 are declared rounded up

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f3740b3..627124a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3112,7 +3112,7 @@ class DelayedOverview(DelayedImage):
         sub_final = np.asarray(sub_final)
         final = kwimage.imresize(
             sub_final,
-            scale=1 / 2**overview,
+            dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
-- 
2.43.0


From 60b7860f275106fe3fdebac056006ab2d4ef929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 10/69] fix: replacing a warp by an overview ignored its border
 value and interpolation

---
 delayed_image/delayed_nodes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 627124a..9988f4b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2451,12 +2451,23 @@ class DelayedWarp(DelayedImage):
         new_transform = residual_transform
         dsize = self.meta['dsize']
         overview = inner_data.get_overview(num_downs)
+        common_meta = ub.dict_isect(self.meta, self._algo_keys)
         if new_transform.isclose_identity():
-            new = overview
-            if new.dsize != dsize:
+            new = overview.optimize()
+            over_w, over_h = new.dsize
+            if isinstance2(new, DelayedWarp):
+                # The overview could not be moved to the leaf without a
+                # residual warp. This must resample how this node asks for.
+                new = new.subdata.warp(
+                    new.transform, dsize=dsize, **common_meta
+                )
+            elif over_w < dsize[0] or over_h < dsize[1]:
+                # The warp has a border outside of the image
+                new = new.warp(new_transform, dsize=dsize, **common_meta)
+            elif new.dsize != dsize:
                 # The warp must have had an implicit crop
                 implicit_crop = (slice(0, dsize[1]), slice(0, dsize[0]))
-                new = new.crop(implicit_crop, clip=False, wrap=False)
+                new = new.crop(implicit_crop)
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append(
                         'Rewrite power of 2 warp as overview with crop'
@@ -2466,7 +2477,6 @@ class DelayedWarp(DelayedImage):
                 if TRACE_OPTIMIZE:
                     new._opt_logs.append('Rewrite power of 2 warp as overview')
         else:
-            common_meta = ub.dict_isect(self.meta, self._algo_keys)
             new = overview.warp(new_transform, dsize=dsize, **common_meta)
             if TRACE_OPTIMIZE:
                 new._opt_logs.append('Factor out overview from warp')
-- 
2.43.0


From db6e7161ba5c6ee0c5f064ee145bc33b0a06fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 11/69] fix: padding a float image overwrote its outermost rows
 and columns with nan

---
 delayed_image/delayed_nodes.py | 58 ++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 9988f4b..4e8d58a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -105,6 +105,57 @@ def _warp_affine_matrix_mode(
     return 'forward'
 
 
+def _warp_whole_pixels(
+    data: np.ndarray,
+    matrix: np.ndarray,
+    dsize: tuple[int, int],
+    border_value: tuple[Any, ...],
+) -> np.ndarray | None:
+    """
+    Translate an image by a whole number of pixels without resampling it.
+
+    Interpolating with a nan border replaces the outermost pixels of the data
+    with nan, even if the translation is integral (e.g. a padded crop).
+
+    Args:
+        data (ndarray): image to translate
+        matrix (ndarray): the 3x3 affine matrix
+        dsize (Tuple[int, int]): size of the output canvas
+        border_value (Tuple[Any, ...]): value for each channel of the border
+
+    Returns:
+        ndarray | None: the translated image, or None if this does not apply.
+    """
+    data = kwarray.atleast_nd(data, 3, front=False)
+    num_chan = data.shape[2]
+    offset = np.round(matrix[0:2, 2])
+    fill = np.asarray(border_value)
+    if len(fill) != num_chan:
+        # Only uniform borders generalize to any number of channels
+        if len(set(map(str, fill.tolist()))) != 1:
+            return None
+        fill = fill[0:1]
+    if data.dtype.kind != 'f':
+        is_representable = np.all(np.isfinite(fill)) and np.all(
+            fill == fill.astype(data.dtype)
+        )
+        if not is_representable:
+            return None
+    is_whole = np.array_equal(matrix, kwimage.Affine.translate(offset).matrix)
+    if not is_whole or isinstance(data, np.ma.MaskedArray):
+        return None
+    tx, ty = offset.astype(int)
+    out_w, out_h = dsize
+    in_h, in_w = data.shape[0:2]
+    final = np.empty((out_h, out_w, num_chan), dtype=data.dtype)
+    final[:] = fill
+    x0, x1 = max(tx, 0), min(tx + in_w, out_w)
+    y0, y1 = max(ty, 0), min(ty + in_h, out_h)
+    if x0 < x1 and y0 < y1:
+        final[y0:y1, x0:x1] = data[y0 - ty:y1 - ty, x0 - tx:x1 - tx]
+    return final
+
+
 def _as_image_like(data: object) -> DelayedImageLike:
     return cast('DelayedImageLike', data)
 
@@ -1826,6 +1877,13 @@ class DelayedWarp(DelayedImage):
 
         dsize = _ensure_valid_dsize(dsize)
 
+        if not isinstance(border_value, str):
+            final = _warp_whole_pixels(
+                prewarp, np.asarray(transform), dsize, border_value
+            )
+            if final is not None:
+                return final
+
         params = None
         if interpolation == 'nearest' or bool(antialias):
             params = transform.decompose()
-- 
2.43.0


From 572a4cf93e520c53da1c37cee16b538037dc61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 12/69] fix: counting the overviews left crashed without
 overviews and could go negative

---
 delayed_image/delayed_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4e8d58a..722c00d 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3147,13 +3147,16 @@ class DelayedOverview(DelayedImage):
         self.meta['dsize'] = (w, h)
 
     @property
-    def num_overviews(self) -> int:
+    def num_overviews(self) -> int | None:
         """
         Returns:
             int
         """
         # This operation reduces the number of available overviews
-        num_remain = self.subdata.num_overviews - self.meta['overview']
+        num_inner = self.subdata.num_overviews
+        if num_inner is None:
+            return None
+        num_remain = max(num_inner - self.meta['overview'], 0)
         return num_remain
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 7cd125f025bb7a318985ca77acc4a9f2526b4997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 13/69] fix: a reflected warp could be replaced by an overview
 that lost resolution

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 722c00d..7a85d25 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2486,7 +2486,7 @@ class DelayedWarp(DelayedImage):
         # Check if there is a strict downsampling component
         transform = self.meta['transform']
         params = transform.decompose()
-        sx, sy = params['scale']
+        sx, sy = map(abs, params['scale'])
         if sx > 0.5 or sy > 0.5:
             return self
 
-- 
2.43.0


From dc093cfc406bf637791f5afd4ed31e6c9dfe9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 14/69] fix: optimizing a level-0 overview of concatenated
 channels crashed

---
 delayed_image/delayed_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 7a85d25..fa78c1b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3218,7 +3218,9 @@ class DelayedOverview(DelayedImage):
         elif isinstance2(new.subdata, DelayedDequantize):
             new = new._opt_dequant_after_overview()
             new = new.optimize(ctx)
-        if isinstance2(new.subdata, DelayedChannelConcat):
+        if isinstance2(new, DelayedOverview) and isinstance2(
+            new.subdata, DelayedChannelConcat
+        ):
             pushed = new._opt_push_under_concat()
             if pushed is not new:
                 new = pushed.optimize(ctx)
-- 
2.43.0


From 3a5885be8d0393f37bf0047c180d28ec5140b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 15/69] fix: moving a dequantize before a warp left the border
 in quantized units

---
 delayed_image/delayed_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index fa78c1b..f7d68b0 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2647,6 +2647,18 @@ class DelayedDequantize(DelayedImage):
         quantization = self.meta['quantization']
         new = copy.copy(self.subdata)
         new.subdata = new.subdata.dequantize(quantization)
+        border_value = new.meta['border_value']
+        if quantization is not None and not isinstance(border_value, str):
+            # The border was specified in quantized units
+            from delayed_image.helpers import dequantize
+
+            border_value = dequantize(
+                np.atleast_1d(np.asarray(border_value)), quantization
+            ).tolist()
+            new.meta = new.meta.copy()
+            new.meta['border_value'] = (
+                border_value if len(border_value) > 1 else border_value[0]
+            )
         if TRACE_OPTIMIZE:
             new._opt_logs.append('_opt_dequant_before_other')
         return new
-- 
2.43.0


From 0ddb8089c3a4b9b2ce8b299b498f024a6111f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 16/69] fix: single band images finalized without the channel
 dimension they declare

---
 delayed_image/lazy_loaders.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..aba05e0 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -10,6 +10,7 @@ from collections import OrderedDict
 from os.path import exists, join
 from typing import Any
 
+import kwarray
 import kwimage  # type: ignore[import-not-found]
 import numpy as np
 import ubelt as ub
@@ -1051,26 +1052,28 @@ class LazyGDalFrameFile(ub.NiceRepr):
         if nodata_method == 'auto':
             nodata_method = 'float'  # just use floats
         if not GDAL_FAST_PATH:
-            return self._compat_gdal_read(
-                ds=ds,
-                band_indices=band_indices,
-                gdalkw=gdalkw,
-                nodata_method=nodata_method,
-            )
-
-        try:
-            return self._dataset_read_as_array(
-                band_indices=band_indices,
-                gdalkw=gdalkw,
-                nodata_method=nodata_method,
-            )
-        except Exception:
-            return self._compat_gdal_read(
+            data = self._compat_gdal_read(
                 ds=ds,
                 band_indices=band_indices,
                 gdalkw=gdalkw,
                 nodata_method=nodata_method,
             )
+        else:
+            try:
+                data = self._dataset_read_as_array(
+                    band_indices=band_indices,
+                    gdalkw=gdalkw,
+                    nodata_method=nodata_method,
+                )
+            except Exception:
+                data = self._compat_gdal_read(
+                    ds=ds,
+                    band_indices=band_indices,
+                    gdalkw=gdalkw,
+                    nodata_method=nodata_method,
+                )
+        # Single band reads also have a channel dimension
+        return kwarray.atleast_nd(data, 3)
 
     def __array__(self):
         """
-- 
2.43.0


From 75763c7f5779e5bbc2f4146fe3a5243df420f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 17/69] fix: optimizing an upscaled empty crop of an overview
 crashed

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f7d68b0..93c4f24 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2285,6 +2285,10 @@ class DelayedWarp(DelayedImage):
             elif isinstance2(subdata, DelayedDequantize):
                 pass
             elif isinstance2(subdata, DelayedCrop):
+                if 0 in subdata.meta['dsize']:
+                    # An empty crop cannot be moved, nor is there a need to
+                    subdata = None
+                    break
                 num_dcrops += 1
             else:
                 subdata = None
-- 
2.43.0


From f62a9630594fc0efa9a3026c84f800598a66ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 18/69] fix: optimize stopped before a fixed point after
 absorbing an overview

---
 delayed_image/delayed_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 93c4f24..00bde38 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2142,7 +2142,10 @@ class DelayedWarp(DelayedImage):
                 new.subdata = new.subdata.optimize(ctx)
                 new = new.optimize(ctx)
             else:
-                new = new._opt_absorb_overview()
+                absorbed = new._opt_absorb_overview()
+                if absorbed is not new:
+                    # The smaller warp may expose new optimizations
+                    new = absorbed.optimize(ctx)
         if TRACE_OPTIMIZE:
             new._opt_logs.append('optimize DelayedWarp')
         memo[self] = new
-- 
2.43.0


From cb7da90613501f49a27f6cab26863d4968610906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 19/69] fix: lazy frames ignored negative slice starts and gave
 negative sizes

---
 delayed_image/lazy_loaders.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index aba05e0..9a88f3b 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1089,12 +1089,9 @@ def _rectify_slice_dim(part, D):
     if part is None:
         return slice(0, D)
     elif isinstance(part, slice):
-        start = 0 if part.start is None else max(0, part.start)
-        stop = D if part.stop is None else min(D, part.stop)
-        if stop < 0:
-            stop = D + stop
         assert part.step is None
-        part = slice(start, stop)
+        start, stop, _ = part.indices(D)
+        part = slice(start, max(start, stop))
         return part
     elif isinstance(part, int):
         part = slice(part, part + 1)
-- 
2.43.0


From 2e3e7597e51b1d1fb41f87b31274516ac11177e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 20/69] fix: lazy frames could not read empty windows

---
 delayed_image/lazy_loaders.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 9a88f3b..09967e8 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1051,7 +1051,16 @@ class LazyGDalFrameFile(ub.NiceRepr):
         nodata_method = self.nodata_method
         if nodata_method == 'auto':
             nodata_method = 'float'  # just use floats
-        if not GDAL_FAST_PATH:
+        if 0 in (ysize, xsize, len(band_indices)):
+            # GDAL cannot read an empty window
+            data = np.empty(
+                (ysize, xsize, len(band_indices)), dtype=self.dtype
+            )
+            if nodata_method == 'ma':
+                data = np.ma.array(data, mask=np.zeros(data.shape, dtype=bool))
+            elif nodata_method is not None:
+                data = data.astype(np.result_type(data.dtype, np.float32))
+        elif not GDAL_FAST_PATH:
             data = self._compat_gdal_read(
                 ds=ds,
                 band_indices=band_indices,
-- 
2.43.0


From 57eed87d552a93577e13a8528bdf59716a52431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 21/69] fix: lazy frames could not read 8-bit signed and 64-bit
 integer images

---
 delayed_image/lazy_loaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 09967e8..af492f7 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -116,6 +116,9 @@ _GDAL_DTYPE_LUT = {
     9: complex_,
     10: np.complex64,
     11: np.complex128,
+    12: np.uint64,
+    13: np.int64,
+    14: np.int8,
 }
 
 
-- 
2.43.0


From 1050aa5f57b37797f121f4a5412a9790830c19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 22/69] fix: lazy frames could not be converted to an array of
 a given type

---
 delayed_image/lazy_loaders.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index af492f7..c6a4d50 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -1087,14 +1087,17 @@ class LazyGDalFrameFile(ub.NiceRepr):
         # Single band reads also have a channel dimension
         return kwarray.atleast_nd(data, 3)
 
-    def __array__(self):
+    def __array__(self, dtype=None, copy=None):
         """
         Allow this object to be passed to np.asarray
 
         References:
             https://numpy.org/doc/stable/user/basics.dispatch.html
         """
-        return self[:]
+        data = self[:]
+        if dtype is not None:
+            data = data.astype(dtype, copy=False)
+        return data
 
 
 def _rectify_slice_dim(part, D):
-- 
2.43.0


From 8cb14dd1c40da48f20600df7a603378070302218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 23/69] fix: a nan nodata value was not masked

---
 delayed_image/lazy_loaders.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index c6a4d50..1737936 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -122,6 +122,15 @@ _GDAL_DTYPE_LUT = {
 }
 
 
+def _equals_nodata(data, band_nodata):
+    """
+    Find which items are nodata, the nodata value itself might be nan.
+    """
+    if np.isnan(band_nodata):
+        return np.isnan(data)
+    return np.equal(data, band_nodata)
+
+
 def _gdal_read_kwimage_compatible(
     gdal_dset,
     overview,
@@ -234,7 +243,7 @@ def _gdal_read_kwimage_compatible(
             if band_nodata is None:
                 mask = np.zeros(buf.shape, dtype=bool)
             else:
-                mask = np.equal(buf, band_nodata)
+                mask = _equals_nodata(buf, band_nodata)
             if color_table is not None:
                 table_chans = idx_to_color.shape[1]
                 mask = np.tile(mask[:, :, None], (1, 1, table_chans))
@@ -266,7 +275,7 @@ def _gdal_read_kwimage_compatible(
             if nodata_method is not None:
                 band_nodata = band_nodata_values[idx]
                 if band_nodata is not None:
-                    np.equal(buf, band_nodata, out=mask[:, :, idx])
+                    mask[:, :, idx] = _equals_nodata(buf, band_nodata)
 
     if nodata_method is not None:
         if nodata_method == 'ma':
@@ -737,7 +746,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 ).GetNoDataValue()
                 mask = np.zeros(image.shape, dtype=bool)
                 if band_nodata is not None:
-                    np.equal(image, band_nodata, out=mask)
+                    mask[:] = _equals_nodata(image, band_nodata)
             else:
                 mask = np.zeros(image.shape, dtype=bool)
                 for idx, band_num in enumerate(band_list):
@@ -745,8 +754,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
                         band_num
                     ).GetNoDataValue()
                     if band_nodata is not None:
-                        np.equal(
-                            image[..., idx], band_nodata, out=mask[..., idx]
+                        mask[..., idx] = _equals_nodata(
+                            image[..., idx], band_nodata
                         )
 
             if nodata_method == 'ma':
-- 
2.43.0


From 15028c2e1aaf2b2ada90cafcbc05afbdeb73cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 24/69] fix: channels could not be selected by slice or by
 index without names

---
 delayed_image/delayed_nodes.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 00bde38..cd2dcad 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -963,13 +963,14 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return _as_image_like(self)
         current_channels = self.channels
 
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
+
         if isinstance(channels, list):
             # Allows channel selection via integer indexes
             # TODO: this API needs to be tested and verified so it works
             # correctly for integers indexes and string channel names.
             top_idx_mapping = channels
-            assert current_channels is not None
-            top_codes = current_channels.as_list()
             request_codes = None
         else:
             channels = FusedChannelSpec.coerce(channels)
@@ -992,10 +993,9 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             ...
         elif missing_channel_policy == 'error':
             # do a quick check for missing channels outside of the core logic
-            assert request_codes is not None
             missing_channels = [
                 code
-                for idx, code in zip(top_idx_mapping, request_codes)
+                for idx, code in zip(top_idx_mapping, request_codes or [])
                 if idx is None
             ]
             if missing_channels:
@@ -1451,6 +1451,8 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
             >>> assert len(new.parts) == 2
             >>> new._validate()
         """
+        if isinstance(channels, slice):
+            channels = list(range(*channels.indices(self.num_channels)))
         if isinstance(channels, list):
             top_idx_mapping = [int(x) for x in channels]
         else:
@@ -2749,6 +2751,9 @@ class DelayedCrop(DelayedImage):
             space_slice = (slice(0, in_h), slice(0, in_w))
             self.meta['dsize'] = (in_w, in_h)
 
+        if isinstance(chan_idxs, slice):
+            chan_idxs = list(range(*chan_idxs.indices(subdata.num_channels)))
+
         if chan_idxs is not None:
             current_channels = self.channels
             if current_channels is not None:
-- 
2.43.0


From c1bbd37644c342f683feafc02fdca7fa9393b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 25/69] fix: selecting channels by name after a duplicated name
 gave the wrong bands

---
 delayed_image/delayed_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index cd2dcad..14b0560 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -980,12 +980,12 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             assert current_channels is not None
             # Compute subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             top_idx_mapping = []
             for code in request_codes:
                 try:
                     top_idx_mapping.append(top_codes.index(code))
-                except KeyError:
+                except ValueError:
                     top_idx_mapping.append(None)
 
         if missing_channel_policy == 'return_nan':
@@ -1469,12 +1469,12 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
                 return self
             # Computer subindex integer mapping
             request_codes = channels.as_list()
-            top_codes = current_channels.as_oset()
+            top_codes = current_channels.as_list()
             try:
                 top_idx_mapping = [
                     top_codes.index(code) for code in request_codes
                 ]
-            except KeyError:
+            except ValueError:
                 # If a requested channel doesn't exist we break this node up
                 # into a concat node so we can use its nan handing logic
                 # This should be easy to optimize if necessary.
-- 
2.43.0


From 8f9fe159d3bd8854a51da1775d0c634175fbfc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 26/69] fix: padded and lazy crops ignored the requested bands

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 14b0560..42db887 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -387,6 +387,7 @@ class ImageOpsMixin:
                 and (sl_x.start is None or sl_x.start == 0)
                 and (sl_x.stop is None or sl_x.stop == w)
                 and (not pad)
+                and chan_idxs is None
             )
             if is_noop:
                 return _as_image_like(self)
@@ -405,6 +406,8 @@ class ImageOpsMixin:
             # Currently padding doesn't really work with crops, so its not
             # efficient, but we can hack it to work with warps.
             new = self._padded_crop(space_slice, pad=pad)
+            if chan_idxs is not None:
+                new = DelayedCrop(_as_image_like(new), None, chan_idxs)
         else:
             # Normal efficient case
             # FIXME: This is using index-based slices and it there needs to be
-- 
2.43.0


From 0039ea50c03f19b294fd740d2254f3cfe05268a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 27/69] fix: fusing padded crops brought back content that was
 cut off

---
 delayed_image/delayed_nodes.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 42db887..159ea4d 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2184,6 +2184,19 @@ class DelayedWarp(DelayedImage):
             inner_meta = self.subdata.meta
             for key in ['interpolation', 'antialias', 'backend']:
                 common_meta[key] = inner_meta[key]
+        tf1_mat = np.asarray(tf1)
+        if np.all(tf1_mat == kwimage.Affine.translate(np.round(tf1_mat[0:2, 2]))):
+            # The canvas of a whole pixel translation (e.g. a padded crop) may
+            # cut content off, which the fused warp must not bring back.
+            tx, ty = tf1_mat[0:2, 2].astype(int)
+            in_w, in_h = inner_data.dsize
+            w, h = self.subdata.dsize
+            x0, x1 = np.clip([-tx, w - tx], 0, in_w).tolist()
+            y0, y1 = np.clip([-ty, h - ty], 0, in_h).tolist()
+            if (x0, y0, x1, y1) != (0, 0, in_w, in_h):
+                inner_data = inner_data.crop((slice(y0, y1), slice(x0, x1)))
+                inner_data = inner_data.optimize()
+                tf1 = tf1 @ kwimage.Affine.translate((x0, y0))
         new_transform = tf2 @ tf1
         new = self.__class__(
             inner_data, new_transform, dsize=dsize, **common_meta
-- 
2.43.0


From 9c0c096a31c161869e8624171a904bb07f7f0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 28/69] fix: component indices of channel slices had the wrong
 size

---
 delayed_image/channel_spec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index fa2b8dc..3429bf5 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -881,8 +881,7 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part in self.parsed:
-            size = self._size_lut.get(part, 1)
+        for part, size in zip(self.parsed, self.sizes()):
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
-- 
2.43.0


From 13ff0f65193c352eb127faac2ae1026dbc04ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 29/69] fix: late fusing with a channel code string crashed

---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 3429bf5..d289fac 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,7 +277,7 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = str
+            other_spec = other
         else:
             other_spec = other.spec
         if not self.spec:
-- 
2.43.0


From 6553bbb381521c1b91ca0d791acfdd7324c20ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 30/69] fix: channel specs could not be pickled after they had
 been used

---
 delayed_image/channel_spec.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index d289fac..da86e1f 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -405,6 +405,13 @@ class FusedChannelSpec(BaseChannelSpec):
         # denote if we are already normalized or not for speed.
         self._is_normalized = _is_normalized
 
+    def __getstate__(self):
+        # The memoized methods are bound to this object and cannot be pickled
+        return {
+            'parsed': self.parsed,
+            '_is_normalized': self._is_normalized,
+        }
+
     def __len__(self):
         if not self._is_normalized:
             text = ub.paragraph(
-- 
2.43.0


From 1e28bddadd1d023f44258469206b5f9e8b7ae243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 31/69] fix: encoding with mode=0 crashed on aliases and slices

---
 delayed_image/channel_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index da86e1f..5dbbf1b 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -1580,7 +1580,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts], axis=axis
+                    [components[k] for k in parts.parsed], axis=axis
                 )
         else:
             raise KeyError(mode)
-- 
2.43.0


From 6f0f6f0a378a2e1af5b3584a79a38c9ff095451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 32/69] fix: sequences of plain channels without a sensor could
 not be parsed

---
 delayed_image/sensorchan_spec.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 2ced0f8..97004ca 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -59,11 +59,20 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     // Fused channels are an ordered sequence of channel codes (without sensors)
     fused : chan_code ("|" chan_code)*
 
+    // Sensor and channel sequences can both start with plain identifiers, so
+    // these are not interpreted until we see what follows them.
+    _iden_seq : IDEN | _iden_seq "," IDEN
+
+    // Fused channels that are more than a plain identifier
+    fused_multi : (chan_getslice_0b | chan_getslice_ab | chan_getitem) ("|" chan_code)* -> fused
+                | chan_single ("|" chan_code)+ -> fused
+
     // Channels can be specified in a sequence but must contain parens
-    fused_seq : "(" fused ("," fused)* ")"
+    fused_seq : "(" _iden_seq ")"
+              | "(" (_iden_seq ",")? fused_multi ("," fused)* ")"
 
     // Sensors can be specified in a sequence but must contain parens
-    sensor_seq : "(" IDEN ("," IDEN)* "):"
+    sensor_seq : "(" _iden_seq "):"
 
     sensor_lhs : (IDEN ":") | (sensor_seq)
 
@@ -712,7 +721,12 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
         return [s.value for s in items]
 
     def fused_seq(self, items):
-        s = list(items)
+        s = [
+            item if isinstance(item, FusedChanNode)
+            # plain identifiers in the sequence are single channels
+            else self.fused([self.chan_single([item])])
+            for item in items
+        ]
         return s
 
     def fused(self, items):
-- 
2.43.0


From d0d4dad29c628a23475abeeb1729b1c007374a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 33/69] fix: dequantizing to an integer type wrapped around or
 crashed

---
 delayed_image/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index 219d326..f28e517 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -477,6 +477,9 @@ def dequantize(quant_data, quantization):
             quant_max=quant_max,
             nodata=nodata,
         )
+    if np.dtype(orig_dtype).kind != 'f':
+        # integers would wrap around, and cannot represent missing values
+        orig_dtype = np.float64
     dequant = quant_data.astype(orig_dtype)
     dequant = (dequant - quant_min) * scale + orig_min
     if nodata is not None:
-- 
2.43.0


From d1a1df16c2ee31ad40cea788e41b1ab1cc70db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 34/69] fix: quantizing float32 data to 32-bit integers
 overflowed

---
 delayed_image/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/helpers.py b/delayed_image/helpers.py
index f28e517..f6cda24 100644
--- a/delayed_image/helpers.py
+++ b/delayed_image/helpers.py
@@ -568,6 +568,8 @@ def quantize_float01(imdata, old_min=0, old_max=1, quantize_dtype=np.int16):
 
     if imdata is not None:
         invalid_mask = np.isnan(imdata)
+        # Low precision floats would overflow the wider integer types
+        imdata = imdata.astype(np.float64)
         new_imdata = (
             imdata.clip(old_min, old_max) - old_min
         ) * quant_factor + quantize_min
-- 
2.43.0


From 37fbac5641caa0ca343049030b6d6f853d806870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 35/69] Revert changes to channel_spec.py and
 sensorchan_spec.py

---
 delayed_image/channel_spec.py    | 14 ++++----------
 delayed_image/sensorchan_spec.py | 20 +++-----------------
 2 files changed, 7 insertions(+), 27 deletions(-)

diff --git a/delayed_image/channel_spec.py b/delayed_image/channel_spec.py
index 5dbbf1b..fa2b8dc 100644
--- a/delayed_image/channel_spec.py
+++ b/delayed_image/channel_spec.py
@@ -277,7 +277,7 @@ class BaseChannelSpec:
             A|B|C,edf,A12,rgb
         """
         if isinstance(other, str):
-            other_spec = other
+            other_spec = str
         else:
             other_spec = other.spec
         if not self.spec:
@@ -405,13 +405,6 @@ class FusedChannelSpec(BaseChannelSpec):
         # denote if we are already normalized or not for speed.
         self._is_normalized = _is_normalized
 
-    def __getstate__(self):
-        # The memoized methods are bound to this object and cannot be pickled
-        return {
-            'parsed': self.parsed,
-            '_is_normalized': self._is_normalized,
-        }
-
     def __len__(self):
         if not self._is_normalized:
             text = ub.paragraph(
@@ -888,7 +881,8 @@ class FusedChannelSpec(BaseChannelSpec):
         """
         component_indices = dict()
         idx1 = 0
-        for part, size in zip(self.parsed, self.sizes()):
+        for part in self.parsed:
+            size = self._size_lut.get(part, 1)
             idx2 = idx1 + size
             index = tuple([slice(None)] * axis + [slice(idx1, idx2)])
             idx1 = idx2
@@ -1580,7 +1574,7 @@ class ChannelSpec(BaseChannelSpec):
             fused = {}
             for key, parts in parsed.items():
                 fused[key] = _impl.cat(
-                    [components[k] for k in parts.parsed], axis=axis
+                    [components[k] for k in parts], axis=axis
                 )
         else:
             raise KeyError(mode)
diff --git a/delayed_image/sensorchan_spec.py b/delayed_image/sensorchan_spec.py
index 97004ca..2ced0f8 100644
--- a/delayed_image/sensorchan_spec.py
+++ b/delayed_image/sensorchan_spec.py
@@ -59,20 +59,11 @@ SENSOR_CHAN_GRAMMAR = ub.codeblock(
     // Fused channels are an ordered sequence of channel codes (without sensors)
     fused : chan_code ("|" chan_code)*
 
-    // Sensor and channel sequences can both start with plain identifiers, so
-    // these are not interpreted until we see what follows them.
-    _iden_seq : IDEN | _iden_seq "," IDEN
-
-    // Fused channels that are more than a plain identifier
-    fused_multi : (chan_getslice_0b | chan_getslice_ab | chan_getitem) ("|" chan_code)* -> fused
-                | chan_single ("|" chan_code)+ -> fused
-
     // Channels can be specified in a sequence but must contain parens
-    fused_seq : "(" _iden_seq ")"
-              | "(" (_iden_seq ",")? fused_multi ("," fused)* ")"
+    fused_seq : "(" fused ("," fused)* ")"
 
     // Sensors can be specified in a sequence but must contain parens
-    sensor_seq : "(" _iden_seq "):"
+    sensor_seq : "(" IDEN ("," IDEN)* "):"
 
     sensor_lhs : (IDEN ":") | (sensor_seq)
 
@@ -721,12 +712,7 @@ class SensorChanTransformer(_TRANSFORMER_BASE):
         return [s.value for s in items]
 
     def fused_seq(self, items):
-        s = [
-            item if isinstance(item, FusedChanNode)
-            # plain identifiers in the sequence are single channels
-            else self.fused([self.chan_single([item])])
-            for item in items
-        ]
+        s = list(items)
         return s
 
     def fused(self, items):
-- 
2.43.0


From 920bb7f22684b3f6ce6df633a2da795dba846389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 36/69] fix: optimizing an upscaled overview changed the size
 of the original

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 159ea4d..9f2ea6f 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2360,6 +2360,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From 020bd0d0cd93df007da0e868ad5323553ed794f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 37/69] fix: optimizing a crop beyond the content of a warp
 shifted its reported transform

---
 delayed_image/delayed_nodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 9f2ea6f..eff5215 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3106,6 +3106,15 @@ class DelayedCrop(DelayedImage):
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         )
 
+        # The crop clips a region that starts beyond the image
+        inner_h, inner_w = self.subdata.subdata.shape[0:2]
+        beyond_y = max(inner_slice[0].start - inner_h, 0)
+        beyond_x = max(inner_slice[1].start - inner_w, 0)
+        if beyond_x or beyond_y:
+            outer_transform = outer_transform @ kwimage.Affine.translate(
+                (-beyond_x, -beyond_y)
+            )
+
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
         new_outer = new_inner.warp(outer_transform, **warp_meta)
         if TRACE_OPTIMIZE:
-- 
2.43.0


From fc49ce350135f1e3bec54eb5e5ebba4f0b9d1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 38/69] fix: keep the mask of masked arrays in nearest and
 antialiased warps

---
 delayed_image/delayed_nodes.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index eff5215..98bc5c1 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1840,6 +1840,12 @@ class DelayedWarp(DelayedImage):
         prewarp = self.subdata._finalize()
         prewarp = np.asanyarray(prewarp)
 
+        if isinstance(prewarp, np.ma.MaskedArray):
+            is_downsample = np.any(np.abs(transform.decompose()['scale']) < 1)
+            if interpolation == 'nearest' or (antialias and is_downsample):
+                # Neither resizing nor antialiasing handles the mask
+                return self._finalize_masked(prewarp)
+
         # TODO: we could configure this, but forcing nans on floats seems like
         # a pretty nice default border behavior. It would be even nicer to have
         # masked arrays for ints.
@@ -2061,6 +2067,28 @@ class DelayedWarp(DelayedImage):
         final = kwarray.atleast_nd(final, 3, front=False)
         return final
 
+    def _finalize_masked(self, prewarp):
+        """
+        Warp the values and the mask of a masked array separately
+        """
+        from delayed_image.delayed_leafs import DelayedIdentity
+
+        missing = np.where(
+            np.ma.getmaskarray(prewarp), np.float32(np.nan), np.float32(0)
+        )
+        auto_border = self.meta['border_value'] == 'auto'
+        mask_node = copy.copy(self)
+        mask_node.subdata = DelayedIdentity(missing)
+        mask_node.meta = self.meta.copy()
+        mask_node.meta['border_value'] = 'auto' if auto_border else 0
+        data_node = copy.copy(self)
+        data_node.subdata = DelayedIdentity(prewarp.data)
+        final = np.ma.masked_array(
+            data_node._finalize(),
+            mask=np.isnan(mask_node._finalize()),
+        )
+        return final
+
     def optimize(
         self, ctx: delayed_base.OptimizeContext | None = None
     ) -> DelayedImageLike:
-- 
2.43.0


From 523b3e22e843196ff745f40bb16a65e7077e51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 39/69] fix: keep the masks of masked arrays when concatenating
 channels

---
 delayed_image/delayed_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 98bc5c1..41e03c4 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -842,7 +842,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             final = stack[0]
         else:
             stack = [kwarray.atleast_nd(s, 3) for s in stack]
-            final = np.concatenate(stack, axis=2)
+            if any(isinstance(s, np.ma.MaskedArray) for s in stack):
+                # The regular concatenate discards the masks
+                final = np.ma.concatenate(stack, axis=2)
+            else:
+                final = np.concatenate(stack, axis=2)
         return final
 
     def optimize(
-- 
2.43.0


From 952aac052647059eaa638a530816658bc6ddeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 40/69] fix: keep the mask of masked arrays in simulated
 overviews

---
 delayed_image/delayed_nodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 41e03c4..f94bcc9 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3263,13 +3263,22 @@ class DelayedOverview(DelayedImage):
             """
             )
         )
-        sub_final = np.asarray(sub_final)
+        sub_final = np.asanyarray(sub_final)
+        mask = None
+        if isinstance(sub_final, np.ma.MaskedArray):
+            mask = np.ma.getmaskarray(sub_final).astype(np.uint8)
+            sub_final = sub_final.data
         final = kwimage.imresize(
             sub_final,
             dsize=self.dsize,
             interpolation='nearest',
             # antialias=True
         )
+        if mask is not None:
+            mask = kwimage.imresize(
+                mask, dsize=self.dsize, interpolation='nearest'
+            )
+            final = np.ma.masked_array(final, mask=mask.astype(bool))
         return final
 
     def optimize(
-- 
2.43.0


From 69234bf4f3cbb678e76b8195267c7e892bbed8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 41/69] fix: export masked pixels to xarray as missing values

---
 delayed_image/delayed_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index f94bcc9..5686c04 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1705,7 +1705,8 @@ class DelayedAsXarray(DelayedImage):
         """
         import xarray as xr
 
-        subfinal = np.asarray(self.subdata._finalize())
+        # xarray converts masked values to nan
+        subfinal = np.asanyarray(self.subdata._finalize())
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-- 
2.43.0


From 9ae125534cba837f9fd60c2b342d1abc67d0437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 42/69] fix: warp the mask of masked arrays independently of
 the border and fill values

---
 delayed_image/delayed_nodes.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 5686c04..4730c34 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1846,10 +1846,7 @@ class DelayedWarp(DelayedImage):
         prewarp = np.asanyarray(prewarp)
 
         if isinstance(prewarp, np.ma.MaskedArray):
-            is_downsample = np.any(np.abs(transform.decompose()['scale']) < 1)
-            if interpolation == 'nearest' or (antialias and is_downsample):
-                # Neither resizing nor antialiasing handles the mask
-                return self._finalize_masked(prewarp)
+            return self._finalize_masked(prewarp)
 
         # TODO: we could configure this, but forcing nans on floats seems like
         # a pretty nice default border behavior. It would be even nicer to have
@@ -2074,23 +2071,24 @@ class DelayedWarp(DelayedImage):
 
     def _finalize_masked(self, prewarp):
         """
-        Warp the values and the mask of a masked array separately
+        Warp the values and the mask of a masked array separately.
+
+        A pixel is masked if it is outside of the image, or if any masked pixel
+        contributes to it.
         """
         from delayed_image.delayed_leafs import DelayedIdentity
 
-        missing = np.where(
-            np.ma.getmaskarray(prewarp), np.float32(np.nan), np.float32(0)
-        )
-        auto_border = self.meta['border_value'] == 'auto'
+        missing = np.ma.getmaskarray(prewarp).astype(np.float32)
+        auto_border = isinstance(self.meta['border_value'], str)
         mask_node = copy.copy(self)
         mask_node.subdata = DelayedIdentity(missing)
         mask_node.meta = self.meta.copy()
-        mask_node.meta['border_value'] = 'auto' if auto_border else 0
+        mask_node.meta['border_value'] = 1 if auto_border else 0
         data_node = copy.copy(self)
         data_node.subdata = DelayedIdentity(prewarp.data)
         final = np.ma.masked_array(
             data_node._finalize(),
-            mask=np.isnan(mask_node._finalize()),
+            mask=np.abs(mask_node._finalize()) > 1e-3,
         )
         return final
 
-- 
2.43.0


From fefb50cfae68056f1d83a23614a1c389dc759718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 43/69] fix: nearest warps honor a border value per channel

---
 delayed_image/delayed_nodes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4730c34..e158d6b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1941,11 +1941,10 @@ class DelayedWarp(DelayedImage):
                 xi = np.where(valid_x, xi, 0)
                 yi = np.where(valid_y, yi, 0)
 
-                fill = (
-                    border_value[0]
-                    if ub.iterable(border_value)
-                    else border_value
-                )
+                fill = border_value[0]
+                if prewarp.ndim == 3 and len(border_value) == num_chan:
+                    # There may be a different value for each channel
+                    fill = np.asarray(border_value)
                 if prewarp.ndim == 2:
                     final = np.full((out_h, out_w), fill, dtype=prewarp.dtype)
                     if valid.any():
-- 
2.43.0


From f6b3f4451c553142ed63f06bb43bc061fd5a3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 44/69] fix: moving a channel selection below a warp selects
 its border values

---
 delayed_image/delayed_nodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e158d6b..e0695ff 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3145,6 +3145,15 @@ class DelayedCrop(DelayedImage):
                 (-beyond_x, -beyond_y)
             )
 
+        border_value = warp_meta['border_value']
+        if outer_chan_idxs is not None and isinstance(
+            border_value, (list, tuple)
+        ):
+            # Keep the border values of the selected channels
+            warp_meta['border_value'] = [
+                border_value[idx] for idx in outer_chan_idxs
+            ]
+
         new_inner = self.subdata.subdata.crop(inner_slice, outer_chan_idxs)
         new_outer = new_inner.warp(outer_transform, **warp_meta)
         if TRACE_OPTIMIZE:
-- 
2.43.0


From baa54f2e20d09eaf5e9b45895217286766f36731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 45/69] fix: moving a warp below a concatenation splits its
 border values

---
 delayed_image/delayed_nodes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index e0695ff..60be383 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1107,7 +1107,17 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
     def _push_operation_under(self, op, kwargs):
         # Note: we can't do this with a crop that has band selection
         # But spatial operations should be ok.
-        new = self.__class__([op(p, **kwargs) for p in self.parts])
+        border_value = kwargs.get('border_value', None)
+        if isinstance(border_value, (list, tuple)):
+            # Each part only takes the border values of its own channels
+            stops = np.cumsum([p.num_channels for p in self.parts]).tolist()
+            parts = [
+                op(p, **{**kwargs, 'border_value': border_value[start:stop]})
+                for p, start, stop in zip(self.parts, [0] + stops, stops)
+            ]
+        else:
+            parts = [op(p, **kwargs) for p in self.parts]
+        new = self.__class__(parts)
         if TRACE_OPTIMIZE:
             new._opt_logs.append(f'_push_operation_under {op}')
         return new
-- 
2.43.0


From ea507d11393fa5869f10d84ace2005bffd143899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 46/69] fix: cubic and lanczos warps of data with nans or a nan
 border gave only nans

---
 delayed_image/delayed_nodes.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 60be383..3fbbd94 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1858,6 +1858,14 @@ class DelayedWarp(DelayedImage):
         if isinstance(prewarp, np.ma.MaskedArray):
             return self._finalize_masked(prewarp)
 
+        if interpolation in {'cubic', 'lanczos'} and prewarp.dtype.kind == 'f':
+            # Depending on the version of OpenCV a single nan in the border or
+            # in the data replaces the entire result with nan.
+            missing = np.isnan(prewarp)
+            if missing.any() or self._has_nan_border():
+                masked = np.ma.masked_array(prewarp, mask=missing)
+                return self._finalize_masked(masked).filled(np.nan)
+
         # TODO: we could configure this, but forcing nans on floats seems like
         # a pretty nice default border behavior. It would be even nicer to have
         # masked arrays for ints.
@@ -2078,6 +2086,12 @@ class DelayedWarp(DelayedImage):
         final = kwarray.atleast_nd(final, 3, front=False)
         return final
 
+    def _has_nan_border(self):
+        border_value = self.meta['border_value']
+        if isinstance(border_value, str):
+            return True
+        return bool(np.any(np.isnan(np.asarray(border_value, dtype=float))))
+
     def _finalize_masked(self, prewarp):
         """
         Warp the values and the mask of a masked array separately.
@@ -2088,13 +2102,15 @@ class DelayedWarp(DelayedImage):
         from delayed_image.delayed_leafs import DelayedIdentity
 
         missing = np.ma.getmaskarray(prewarp).astype(np.float32)
-        auto_border = isinstance(self.meta['border_value'], str)
+        mask_border, data_border = 0, self.meta['border_value']
+        if self._has_nan_border():
+            mask_border, data_border = 1, 0
         mask_node = copy.copy(self)
         mask_node.subdata = DelayedIdentity(missing)
-        mask_node.meta = self.meta.copy()
-        mask_node.meta['border_value'] = 1 if auto_border else 0
+        mask_node.meta = {**self.meta, 'border_value': mask_border}
         data_node = copy.copy(self)
-        data_node.subdata = DelayedIdentity(prewarp.data)
+        data_node.subdata = DelayedIdentity(prewarp.filled(0))
+        data_node.meta = {**self.meta, 'border_value': data_border}
         final = np.ma.masked_array(
             data_node._finalize(),
             mask=np.abs(mask_node._finalize()) > 1e-3,
-- 
2.43.0


From 1e80aab647ff47ed0e989895a513fea535c5e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 47/69] fix: keep enough data around crops moved below warps
 with wide kernels

---
 delayed_image/delayed_nodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3fbbd94..b35b653 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3162,6 +3162,20 @@ class DelayedCrop(DelayedImage):
             ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)
         )
 
+        # Wide interpolation kernels need more data around the cropped region
+        extra = {'cubic': 1, 'lanczos': 3}.get(warp_meta['interpolation'], 0)
+        if extra:
+            inner_y, inner_x = inner_slice
+            start_y = max(inner_y.start - extra, 0)
+            start_x = max(inner_x.start - extra, 0)
+            outer_transform = outer_transform @ kwimage.Affine.translate(
+                (start_x - inner_x.start, start_y - inner_y.start)
+            )
+            inner_slice = (
+                slice(start_y, inner_y.stop + extra),
+                slice(start_x, inner_x.stop + extra),
+            )
+
         # The crop clips a region that starts beyond the image
         inner_h, inner_w = self.subdata.subdata.shape[0:2]
         beyond_y = max(inner_slice[0].start - inner_h, 0)
-- 
2.43.0


From d9bdb002c20f7907b49dea76c87503de384f7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 48/69] fix: nearest scales whose output is not exactly the
 scaled extent were stretched

---
 delayed_image/delayed_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b35b653..da30c38 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1939,8 +1939,8 @@ class DelayedWarp(DelayedImage):
             # extent of the scaled image.
             is_resize = (
                 not has_translation
-                and abs(out_w - sx * in_w) < 1
-                and abs(out_h - sy * in_h) < 1
+                and abs(out_w - sx * in_w) < 1e-6
+                and abs(out_h - sy * in_h) < 1e-6
             )
             if (
                 is_axis_aligned
-- 
2.43.0


From 2b310b83a96b0c315bc07059a3823859f700d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 49/69] fix: undo_warps failed on nested concatenations

---
 delayed_image/delayed_nodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index da30c38..3bcd038 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1245,6 +1245,15 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         if return_warps:
             jagged_warps = []
             for part in self.parts:
+                if isinstance2(part, DelayedChannelConcat):
+                    nested_parts, nested_warps = part.undo_warps(
+                        retain=retain,
+                        squash_nans=squash_nans,
+                        return_warps=return_warps,
+                    )
+                    unwarped_parts.extend(nested_parts)
+                    jagged_warps.extend(nested_warps)
+                    continue
                 undone_part, undo_warp = part.undo_warp(
                     retain=retain,
                     squash_nans=squash_nans,
@@ -1255,6 +1264,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
             return unwarped_parts, jagged_warps
         else:
             for part in self.parts:
+                if isinstance2(part, DelayedChannelConcat):
+                    unwarped_parts.extend(
+                        part.undo_warps(retain=retain, squash_nans=squash_nans)
+                    )
+                    continue
                 undone_part = part.undo_warp(
                     retain=retain, squash_nans=squash_nans
                 )
-- 
2.43.0


From 1f0ea6037797c51aebd84f21b8ba0f01ff55c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 50/69] fix: squash_nans changed the returned warp of images
 with data, and missed dequantized missing images

---
 delayed_image/delayed_nodes.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 3bcd038..632a202 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1682,14 +1682,19 @@ class DelayedImage(DelayedArray, ImageOpsMixin):
         undo_warp = kwimage.Affine.coerce(undo_components)
         undone_part = part.warp(undo_warp).optimize()
         if squash_nans:
-            if return_warp:
-                # hack the return undo_warp
-                assert undone_part.dsize is not None
-                w, h = undone_part.dsize
-                assert w is not None
-                assert h is not None
-                undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
-            if isinstance2(undone_part, delayed_leafs.DelayedNans):
+            if all(
+                isinstance2(leaf, delayed_leafs.DelayedNans)
+                for leaf in undone_part.leafs()
+            ):
+                if return_warp:
+                    # hack the return undo_warp
+                    assert undone_part.dsize is not None
+                    w, h = undone_part.dsize
+                    assert w is not None
+                    assert h is not None
+                    undo_warp = (
+                        kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp
+                    )
                 undone_part = undone_part[0:1, 0:1].optimize()
         if return_warp:
             return undone_part, undo_warp
-- 
2.43.0


From af82191516284856c411f5e56429df8af8908454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 51/69] fix: exporting channels written as a range to xarray
 failed

---
 delayed_image/delayed_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 632a202..25f06df 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1739,7 +1739,7 @@ class DelayedAsXarray(DelayedImage):
         channels = self.subdata.channels
         coords = {}
         if channels is not None:
-            coords['c'] = channels.code_list()
+            coords['c'] = channels.as_list()
             if len(subfinal.shape) == 2:
                 subfinal = subfinal[:, :, None]
         final = xr.DataArray(subfinal, dims=('y', 'x', 'c'), coords=coords)
-- 
2.43.0


From 007dd15cf68558c60d93ba39dc3ebf44b344dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 52/69] fix: parse_network_text recognizes a directed graph
 from its first line

---
 delayed_image/util/util_network_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/util/util_network_text.py b/delayed_image/util/util_network_text.py
index 84238db..6131ea0 100644
--- a/delayed_image/util/util_network_text.py
+++ b/delayed_image/util/util_network_text.py
@@ -799,7 +799,8 @@ def parse_network_text(lines):
     except StopIteration:
         ...
     else:
-        initial_lines.append(first_line)
+        # The first line may contain a backedge, so it is also scanned below
+        initial_line_iter = chain([first_line], initial_line_iter)
         # The first character indicates if it is an ASCII or UTF graph
         first_char = first_line[0]
         if first_char in {
-- 
2.43.0


From 59978978e55d8c80d85052ddfb4c379975595ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 53/69] fix: str of a channel concat of unprepared parts

---
 delayed_image/delayed_nodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 25f06df..bde1a86 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -828,8 +828,7 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
         Returns:
             Tuple[int | None, int | None, int | None]
         """
-        assert self.dsize is not None
-        w, h = self.dsize
+        w, h = (None, None) if self.dsize is None else self.dsize
         return (h, w, self.num_channels)
 
     def _finalize(self) -> ArrayLike:
-- 
2.43.0


From 9e6a67e97be187f4ef4c09a5350ca9a42f70faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 54/69] fix: print graph labels containing square brackets
 literally

---
 delayed_image/delayed_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_base.py b/delayed_image/delayed_base.py
index d5d5f88..bec5017 100644
--- a/delayed_image/delayed_base.py
+++ b/delayed_image/delayed_base.py
@@ -347,7 +347,12 @@ class DelayedOperation:
         if rich == 'auto':
             rich = rich_mod is not None
         if rich and rich_mod is not None:
-            path = rich_mod.print
+            from rich.markup import escape
+
+            # labels are literal text, they may contain square brackets
+            def path(line):
+                rich_mod.print(escape(line))
+
             end = ''
         write_network_text(
             graph,
-- 
2.43.0


From ab524f4dfd24dbd0269f747fc9bd9515462eeb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 55/69] fix: only use overviews stored at consecutive powers of
 two

---
 delayed_image/lazy_loaders.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 1737936..a895398 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -866,7 +866,17 @@ class LazyGDalFrameFile(ub.NiceRepr):
     def num_absolute_overviews(self):
         ds = self._ds
         default_band0 = ds.GetRasterBand(1)
-        num_overviews = default_band0.GetOverviewCount()
+        # Overview levels are expected to be consecutive powers of two. Other
+        # pyramid layers are stored at a different scale and cannot be used.
+        num_overviews = 0
+        for idx in range(default_band0.GetOverviewCount()):
+            band = default_band0.GetOverview(idx)
+            factor = 2 ** (idx + 1)
+            if band.XSize != -(-default_band0.XSize // factor):
+                break
+            if band.YSize != -(-default_band0.YSize // factor):
+                break
+            num_overviews += 1
         return num_overviews
 
     @ub.memoize_property
-- 
2.43.0


From 714f487016f7b4e4189ce6614a7dbd94ed9a6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 56/69] fix: a failed GDAL read was retried on the same handle
 and could return garbage

---
 delayed_image/lazy_loaders.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index a895398..98c0ac7 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -212,9 +212,7 @@ def _gdal_read_kwimage_compatible(
         if color_table is None:
             buf = band.ReadAsArray(**gdalkw)
             if buf is None:
-                buf = band.ReadAsArray(**gdalkw)
-                if buf is None:
-                    raise IOError('GDal was unable to read this band')
+                raise IOError('GDal was unable to read this band')
             image = np.array(buf)
         else:
             buf = band.ReadAsArray(**gdalkw)
@@ -620,6 +618,19 @@ class LazyGDalFrameFile(ub.NiceRepr):
             if GLOBAL_GDAL_CACHE is not None:
                 GLOBAL_GDAL_CACHE[_fpath] = ds
 
+    def _discard_cache(self):
+        """
+        Forget the open dataset and everything that belongs to it.
+        """
+        ds = self._ds_cache
+        self._ds_cache = None
+        for name in ('_read_ds', '_read_bands', '_read_band_nodata_values'):
+            # attributes of ub.memoize_property
+            self.__dict__.pop('_' + name, None)
+        if GLOBAL_GDAL_CACHE is not None:
+            for key in [k for k, v in GLOBAL_GDAL_CACHE.items() if v is ds]:
+                del GLOBAL_GDAL_CACHE[key]
+
     def get_overview(self, overview):
         """
         Returns the overview relative to this one.
@@ -678,6 +689,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
         default_bands = tuple(
             ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)
         )
+        if any(b is None for b in default_bands):
+            raise AssertionError(
+                'Band was None in {}'.format(ds.GetDescription())
+            )
         overview = self.overview or 0
         if overview <= 0:
             return default_bands
@@ -804,6 +819,11 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 preloaded_band_nodata_values=selected_nodata_values,
             )
             log_label = 'gdal-vendored-read'
+        except (OSError, RuntimeError):
+            # The file could not be read. After that GDAL may return garbage
+            # from the same dataset, so reopen it before trying again.
+            self._discard_cache()
+            raise
         except Exception:
             from kwimage.im_io import (
                 _gdal_read,  # type: ignore[import-not-found]
@@ -871,6 +891,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
         num_overviews = 0
         for idx in range(default_band0.GetOverviewCount()):
             band = default_band0.GetOverview(idx)
+            if band is None:
+                # Unreadable, but stored. Reading this level is an error.
+                num_overviews += 1
+                continue
             factor = 2 ** (idx + 1)
             if band.XSize != -(-default_band0.XSize // factor):
                 break
@@ -1097,8 +1121,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
                     nodata_method=nodata_method,
                 )
             except Exception:
+                self._discard_cache()
                 data = self._compat_gdal_read(
-                    ds=ds,
+                    ds=self._ds,
                     band_indices=band_indices,
                     gdalkw=gdalkw,
                     nodata_method=nodata_method,
-- 
2.43.0


From fcccf297aec7f3988ae90c7d9cb75a8aa55d65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 57/69] fix: threads sharing a file reader used one GDAL
 dataset at the same time

---
 delayed_image/lazy_loaders.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 98c0ac7..cf11550 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -5,7 +5,9 @@ syntax
 
 from __future__ import annotations
 
+import functools
 import os
+import threading
 from collections import OrderedDict
 from os.path import exists, join
 from typing import Any
@@ -484,6 +486,19 @@ class LazyRasterIOFrameFile(ub.NiceRepr):
         return img_part
 
 
+def _synchronized(func):
+    """
+    Only one thread may use an open GDAL dataset at the same time.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with self._lock:
+            return func(self, *args, **kwargs)
+
+    return wrapper
+
+
 def _demo_geoimg_with_nodata():
     """
     Example:
@@ -580,6 +595,17 @@ class LazyGDalFrameFile(ub.NiceRepr):
         if self.overview is None:
             self.overview = 0
         self._ds_cache = None
+        # Guards the dataset, and is shared with everything that shares it.
+        self._lock = threading.RLock()
+
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state.pop('_lock', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._lock = threading.RLock()
 
     @classmethod
     def available(self):
@@ -637,6 +663,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
         """
         return self.get_absolute_overview(overview + self.overview)
 
+    @_synchronized
     def get_absolute_overview(self, overview):
         """
         Returns the overview relative to the base
@@ -645,6 +672,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
             self.fpath, nodata_method=self.nodata_method, overview=overview
         )
         new._ds_cache = self._ds_cache
+        new._lock = self._lock
         return new
 
     @property
@@ -883,6 +911,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return self.num_absolute_overviews - self.overview
 
     @ub.memoize_property
+    @_synchronized
     def num_absolute_overviews(self):
         ds = self._ds
         default_band0 = ds.GetRasterBand(1)
@@ -904,6 +933,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return num_overviews
 
     @ub.memoize_property
+    @_synchronized
     def shape(self):
         ds = self._ds
         default_band0 = ds.GetRasterBand(1)
@@ -930,6 +960,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
         return (height, width, C)
 
     @property
+    @_synchronized
     def dtype(self):
         main_band = self._ds.GetRasterBand(1)
         dtype = _GDAL_DTYPE_LUT[main_band.DataType]
@@ -940,6 +971,7 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
         return '.../' + basename(self.fpath)
 
+    @_synchronized
     def __getitem__(self, index):
         r"""
         References:
-- 
2.43.0


From 6989e55da1f12e88625620ab5ab09341fa811476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:43 +0000
Subject: [PATCH 58/69] fix: count negative channel indexes of a concatenation
 from its end

---
 delayed_image/delayed_nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index bde1a86..a54b96c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1039,6 +1039,11 @@ class DelayedChannelConcat(DelayedConcat, ImageOpsMixin):
                     inner = curr.stop
             else:
                 # Requested channel exists in our data stack
+                if idx < 0:
+                    # Negative indexes count from the last channel
+                    idx = idx + len(subindexer)
+                    if idx < 0:
+                        raise IndexError('channel index out of range')
                 outer, inner = subindexer.unravel(idx)
                 comp = self.parts[outer]
 
-- 
2.43.0


From 6d10f97d207cf82a480b73139f96fc67f7dba5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 59/69] fix: select a single band by its index on every kind of
 image

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index a54b96c..88f4447 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2850,6 +2850,9 @@ class DelayedCrop(DelayedImage):
 
         if isinstance(chan_idxs, slice):
             chan_idxs = list(range(*chan_idxs.indices(subdata.num_channels)))
+        elif isinstance(chan_idxs, (int, np.integer)):
+            # A single band, e.g. ``self[:, :, 0]``
+            chan_idxs = [int(chan_idxs)]
 
         if chan_idxs is not None:
             current_channels = self.channels
-- 
2.43.0


From ba2d8bad2e490ee4ef37ef94d091d12239d62689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 60/69] fix: treat integer interpolation codes like their names

---
 delayed_image/delayed_nodes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 88f4447..2162bde 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -64,6 +64,17 @@ def _kwimage_version() -> tuple[int, ...]:
     return _version_tuple(getattr(kwimage, '__version__', '0'))
 
 
+def _interpolation_name(interpolation: Any) -> Any:
+    """
+    The name of an interpolation mode, which may be given as a cv2 integer.
+    """
+    if isinstance(interpolation, (int, np.integer)):
+        names = ['nearest', 'linear', 'cubic', 'area', 'lanczos']
+        if 0 <= interpolation < len(names):
+            return names[interpolation]
+    return interpolation
+
+
 def _warp_affine_matrix_mode(
     dtype: Any = np.float32,
     backend: str = 'auto',
@@ -1840,7 +1851,7 @@ class DelayedWarp(DelayedImage):
         self.meta['transform'] = transform
         self.meta['dsize'] = dsize
         self.meta['antialias'] = antialias
-        self.meta['interpolation'] = interpolation
+        self.meta['interpolation'] = _interpolation_name(interpolation)
         self.meta['border_value'] = border_value
         self.meta['noop_eps'] = noop_eps
         self.meta['backend'] = backend
@@ -1872,7 +1883,7 @@ class DelayedWarp(DelayedImage):
             dsize = None
         antialias = self.meta['antialias']
         transform = self.meta['transform']
-        interpolation = self.meta['interpolation']
+        interpolation = _interpolation_name(self.meta['interpolation'])
         backend = self.meta['backend']
 
         prewarp = self.subdata._finalize()
-- 
2.43.0


From ab5d2fa0acac67974d0eced74790bb11762a0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 61/69] fix: allow lazy crops that only select channels

---
 delayed_image/delayed_nodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 2162bde..4c5adff 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -389,9 +389,8 @@ class ImageOpsMixin:
             # anything then skip it.
             assert self.dsize is not None
             assert all(d is not None for d in self.dsize)
-            assert space_slice is not None
             w, h = self.dsize
-            sl_y, sl_x = space_slice
+            sl_y, sl_x = space_slice or (slice(None), slice(None))
             is_noop = (
                 (sl_y.start is None or sl_y.start == 0)
                 and (sl_y.stop is None or sl_y.stop == h)
-- 
2.43.0


From f9bae43f0dab520fa173871d560347c52e2cb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 62/69] fix: integer nearest interpolation given to finalize
 keeps its place

---
 delayed_image/delayed_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4c5adff..b6f8c88 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2937,7 +2937,9 @@ class DelayedCrop(DelayedImage):
             # pixel-corner conventions. Keep them in-place, but allow the
             # rewrite for non-nearest warps where it recovers much smaller
             # intermediates without tripping the nearest off-by-one cases.
-            interp = new.subdata.meta.get('interpolation', None)
+            interp = _interpolation_name(
+                new.subdata.meta.get('interpolation', None)
+            )
             if interp != 'nearest':
                 pushed = new._opt_warp_after_crop()
                 if pushed is not new:
-- 
2.43.0


From 771148bcbb05a7750305e82eee6124278f914061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 63/69] fix: images made from two dimensional data have a
 channel axis

---
 delayed_image/delayed_leafs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..bb7db60 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -522,4 +522,8 @@ class DelayedIdentity(DelayedImageLeaf):
         Returns:
             ArrayLike
         """
-        return self.data
+        data = self.data
+        if isinstance(data, np.ndarray) and data.ndim == 2:
+            # Always have an explicit channel axis, as the shape declares
+            data = data[:, :, None]
+        return data
-- 
2.43.0


From cd587dd248bb2133fde9d54d0de9403a2f9d57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 64/69] fix: refuse to undo unknown warp components

---
 delayed_image/delayed_nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index b6f8c88..095794b 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3566,8 +3566,14 @@ class DelayedOverview(DelayedImage):
 
 
 def _rectify_retain(remove, retain):
+    valid_keys = {'offset', 'scale', 'shearx', 'theta'}
+    unknown = (set(remove or ()) | set(retain or ())) - valid_keys
+    if unknown:
+        raise ValueError(
+            f'unknown warp components: {sorted(unknown)}. '
+            f'Valid components are {sorted(valid_keys)}'
+        )
     if remove is not None or retain is None:
-        valid_keys = {'offset', 'scale', 'shearx', 'theta'}
         if remove is not None and retain is not None:
             raise ValueError('retain and remove are mutually exclusive')
         if remove is not None:
-- 
2.43.0


From 014b53045b9b066b3df91c99382c299d6182a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 65/69] fix: refuse crops with a step instead of ignoring it

---
 delayed_image/delayed_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 095794b..21f33df 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -384,6 +384,10 @@ class ImageOpsMixin:
             >>> assert result2 is self
             >>> assert result3 is not self
         """
+        if space_slice is not None:
+            if any(sl.step not in {None, 1} for sl in space_slice):
+                raise NotImplementedError('Crops with a step are not supported')
+
         if lazy:
             # If we are in lazy mode and we can detect the crop wont do
             # anything then skip it.
-- 
2.43.0


From 5ae8a8d36fd1e0ac0c4fc0eb3c1de49c2a78a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 66/69] fix: refuse a negative canvas size

---
 delayed_image/delayed_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 21f33df..0529828 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1851,6 +1851,9 @@ class DelayedWarp(DelayedImage):
             from delayed_image.helpers import _auto_dsize
 
             dsize = _auto_dsize(transform, self.subdata.dsize)
+        elif dsize is not None:
+            if any(d is not None and d < 0 for d in dsize):
+                raise ValueError(f'dsize cannot be negative, got {dsize}')
         self.meta['transform'] = transform
         self.meta['dsize'] = dsize
         self.meta['antialias'] = antialias
-- 
2.43.0


From 6d5c9302fd546d9fec5581551df46b356b449433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 67/69] fix: refuse negative overviews

---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 0529828..4315319 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -3303,6 +3303,8 @@ class DelayedOverview(DelayedImage):
             overview (int): the overview to use (assuming it exists)
         """
         super().__init__(subdata)
+        if overview < 0:
+            raise ValueError(f'overview cannot be negative, got {overview}')
         self.meta['overview'] = overview
         assert subdata.dsize is not None
         w, h = subdata.dsize
-- 
2.43.0


From 186ce48d8962bcc011f374454920ff69a1db1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:34 +0000
Subject: [PATCH 68/69] fix: limit border values to the range of integer images

---
 delayed_image/delayed_nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 4315319..1c1ae7a 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -1943,6 +1943,13 @@ class DelayedWarp(DelayedImage):
             # the border value only correctly applies to the first 4 channels for
             # whatever reason.
             border_value = border_value[0:4]
+            if prewarp.dtype.kind in 'iu':
+                # Round and saturate like OpenCV does. Not everything that
+                # fills the border does that.
+                info = np.iinfo(prewarp.dtype)
+                fill = np.nan_to_num(np.asarray(border_value, dtype=float))
+                fill = np.clip(np.rint(fill), info.min, info.max)
+                border_value = tuple(fill.tolist())
 
         from delayed_image.helpers import _ensure_valid_dsize
 
-- 
2.43.0


From adb543af7d1a0ce6c07deb403c9da7e6f0e80a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:37 +0000
Subject: [PATCH 69/69] fix: warp cubic and lanczos images with more than four
 channels

---
 delayed_image/delayed_nodes.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index 1c1ae7a..d70b27e 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2049,6 +2049,9 @@ class DelayedWarp(DelayedImage):
         else:
             M = np.asarray(transform.inv())
 
+        if interpolation in {'cubic', 'lanczos'} and num_chan > 4:
+            return self._finalize_by_parts(prewarp)
+
         # Determine antialiasing from the forward transform semantics.
         # (Passing the inverse transform directly would invert this heuristic.)
         # Also, nearest-neighbor interpolation should never use antialiasing.
@@ -2133,6 +2136,25 @@ class DelayedWarp(DelayedImage):
         final = kwarray.atleast_nd(final, 3, front=False)
         return final
 
+    def _finalize_by_parts(self, prewarp):
+        """
+        Warp at most 4 channels at a time, which is what OpenCV supports.
+        """
+        from delayed_image.delayed_leafs import DelayedIdentity
+
+        border_value = self.meta['border_value']
+        parts = []
+        for start in range(0, prewarp.shape[2], 4):
+            part = copy.copy(self)
+            part.subdata = DelayedIdentity(prewarp[:, :, start : start + 4])
+            if ub.iterable(border_value):
+                # The value of a channel does not depend on the other channels
+                num = part.subdata.num_channels
+                border = tuple(cast(IterableABC, border_value))[0:num]
+                part.meta = {**self.meta, 'border_value': border}
+            parts.append(part._finalize())
+        return np.concatenate(parts, axis=2)
+
     def _has_nan_border(self):
         border_value = self.meta['border_value']
         if isinstance(border_value, str):
-- 
2.43.0


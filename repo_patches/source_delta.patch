From 7a21cbf98c2b17768c2ff0f9611ccb88233a8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 01/13] fix: fill the padded cells in "zeros" padding mode

---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From a9b4ecd6b1bdde82e18b5f7ef8ed0eba3a6e4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 02/13] fix: reject out-of-range axes with ValueError, as
 documented

---
 torchimage/utils/validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..8e73b4c 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -27,10 +27,11 @@ def check_axes(x, axes):
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
     elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
+        axes = tuple([axes if axes >= 0 else x.ndim + axes])
     else:
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+    if not all(0 <= a < x.ndim for a in axes):
+        raise ValueError(f"axes out of range for a tensor with {x.ndim} dimensions, got {axes} instead")
     return axes
 
 
-- 
2.43.0


From 9260421ac06ae1bbb051fe4ee984daf1e12821ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 03/13] fix: count_include_pad=False average pooling with
 unsorted axes

---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..f5eb6fb 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From edd2c8094bad1167ef719b9d1cc21141c82dd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 04/13] fix: count_include_pad=False average pooling without a
 padder

---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index f5eb6fb..0d6399f 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From 0066df04fdcf106e14cc9a60b5135c20b158bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 05/13] fix: do not truncate fractional edge kernels to the
 integer fast path

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..05bbdc2 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From 09bc406b68c333a6ffc4ecf0526be842cf8f5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 06/13] fix: let random_crop reach the last offset and
 full-size crops

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From 7520d694fbe4b8d8bccdfcacc8bd94e6a4d152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 07/13] fix: index with a tuple of slices in random_crop

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index f36136b..2ca1a6d 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -15,7 +15,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
-    return x[idx]
+    return x[tuple(idx)]
 
 
 def add_poisson_gauss_noise(x: torch.Tensor, k, sigma, *, generator: torch.Generator = None) -> torch.Tensor:
-- 
2.43.0


From f1d6636c898bd2d09119dea26a8006d45bd3f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 08/13] fix: reserve the periodize element in Padder.pad_axis

---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..e24ee62 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 39f76478267878c92b15427e09f4e75ed2c2625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 09/13] fix: never accumulate gradient magnitude into the input
 tensor

---
 torchimage/filtering/edges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index 05bbdc2..e5e4871 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -125,10 +125,10 @@ class EdgeFilter(nn.Module):
             if magnitude is None:
                 magnitude = c ** p if p != 1 else c
             else:
-                magnitude += c ** p if p != 1 else c
+                magnitude = magnitude + (c ** p if p != 1 else c)
 
         if epsilon != 0:
-            magnitude += epsilon
+            magnitude = magnitude + epsilon
 
         if p == 1:
             return magnitude
-- 
2.43.0


From dcd8fba000b0346b9726e365a452ca055567572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 10/13] fix: poly1d with a constant polynomial

---
 torchimage/misc/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..8bc09e1 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -27,7 +27,7 @@ def poly1d(x: torch.Tensor, p: list or tuple):
     p = tuple(p)
     bias = p[-1]
     weight = p[:-1][::-1]  # change to ascending order
-    y = None
+    y = torch.zeros_like(x)
     xx = x  # running x^i
     for i, w in enumerate(weight):
         if i == 0:
-- 
2.43.0


From 5531f82c22b6f30cb2338fd69e04516d52311d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 11/13] fix: MS_SSIM with a single level

---
 torchimage/metrics/ssim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..167528d 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -301,6 +301,9 @@ class MS_SSIM(SSIM):
         ssim_full = self._crop_border(ssim_full, content_axes=content_axes)
         ssim_score = ssim_full.mean(dim=content_axes, keepdim=True)
 
+        if final_score is None:  # only 1 level
+            final_score = 1 if self.use_prod else 0
+
         if self.use_prod:
             # negative values need to be removed
             final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
-- 
2.43.0


From a6766f239a4e4ac6141373191122a8d5a934ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 12/13] fix: reject unknown padding modes when the padder is
 created

---
 torchimage/padding/generic_pad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index e24ee62..aa66b39 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -80,7 +80,8 @@ class Padder:  # (nn.Module):
         self.pad_width = NdSpec(pad_width, item_shape=[2]).starmap(check_pad_width)
 
         self.mode = NdSpec(mode)
-        self.mode.map(_check_padding_mode)
+        if not all(_check_padding_mode(m) for m in self.mode):
+            raise ValueError(f"Unsupported padding mode {mode}")
 
         self.constant_values = NdSpec(constant_values, item_shape=[2])
         self.end_values = NdSpec(end_values, item_shape=[2])
-- 
2.43.0


From 76eb4f49e23b014fac211c284124c7953931ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 13/13] fix: default stride of an empty kernel, which must be
 ignored

---
 torchimage/pooling/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index d3b8c56..79d40cc 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -115,7 +115,7 @@ class BasePoolNd(nn.Module):
             Processed stride
         """
         stride = NdSpec(stride, item_shape=[]).map(check_stride)
-        stride = NdSpec.apply(lambda s, ks: ks if s is None else s, stride, self.kernel_size)
+        stride = NdSpec.apply(lambda s, ks: max(ks, 1) if s is None else s, stride, self.kernel_size)
         return stride
 
     def to_filter(self, padder=None):
-- 
2.43.0


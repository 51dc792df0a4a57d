From 51ba7fd7aa853b380f6ad298b9b98752ad73f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:04 +0000
Subject: [PATCH 01/32] fix: start a new psi row when the kernel index changes,
 and handle an empty psi in preprocess_psi

---
 torch_harmonics/disco/optimized/disco_helpers.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..11a8e44 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -80,12 +80,16 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] col_sort;
     delete[] val_sort;
 
-    // compute rows offsets
-    nrows = 1;
+    // compute rows offsets: a new row starts whenever the (kernel, row) pair changes
     roff_h[0] = 0;
+    if (nnz == 0) {
+        nrows = 0;
+        return;
+    }
+    nrows = 1;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        if (ker_h[i - 1] == ker_h[i] && row_h[i - 1] == row_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 55772244fc52042886800c5fc2b17019dec4ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 02/32] fix: compare longitudes with longitudes in the
 reference DISCO contraction shape check

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0


From 8ad3697e7d28e7e6cb21c1c2d72977b8d53ce32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 03/32] fix: use the slerp formula for negative angular
 differences too in spherical resampling

---
 torch_harmonics/distributed/distributed_resample.py | 8 ++++----
 torch_harmonics/resample.py                         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..32f9836 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +204,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..789fe1c 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +212,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From 6041f91fff15964e77cd929e1957524cf4002835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 04/32] fix: return an integral of shape (...) for inputs with
 fewer than two leading dimensions

---
 torch_harmonics/distributed/distributed_quadrature.py | 2 +-
 torch_harmonics/quadrature.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..8b14bd8 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -130,7 +130,7 @@ class DistributedQuadratureS2(torch.nn.Module):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
             quad = reduce_from_polar_region(quad)
         if self.comm_size_azimuth > 1:
diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index d998189..828b3ef 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -458,6 +458,6 @@ class QuadratureS2(torch.nn.Module):
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
         return quad
-- 
2.43.0


From e16ce26ec25eea01db6817517ee8049f1fda4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 05/32] fix: do not round float64 data to float32 in
 distributed reductions

---
 torch_harmonics/distributed/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..03060b7 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -359,7 +359,7 @@ def _reduce(input_, use_fp32=True, group=None):
     # tracked value when the input is fp32 + contiguous).
     if use_fp32:
         dtype = input_.dtype
-        inputf_ = input_.float().contiguous().clone()
+        inputf_ = input_.to(torch.promote_types(dtype, torch.float32)).contiguous().clone()
         dist.all_reduce(inputf_, group=group)
         input_ = inputf_.to(dtype)
     else:
@@ -464,7 +464,7 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    work_dtype = torch.promote_types(dtype, torch.float32) if use_fp32 else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From a29851642b3856bf500e8bcfcd819bbd1697dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 06/32] fix: reject inputs whose spatial shape does not match
 in_shape in the DISCO convolutions

---
 torch_harmonics/disco/convolution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torch_harmonics/disco/convolution.py b/torch_harmonics/disco/convolution.py
index 04fe534..755e6c5 100644
--- a/torch_harmonics/disco/convolution.py
+++ b/torch_harmonics/disco/convolution.py
@@ -692,6 +692,10 @@ class DiscreteContinuousConvS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        torch._check(x.dim() == 4, lambda: "Expected a 4-dimensional input tensor")
+        torch._check(x.shape[-2] == self.nlat_in, lambda: "Expected the input latitudes shape[-2] to match in_shape")
+        torch._check(x.shape[-1] == self.nlon_in, lambda: "Expected the input longitudes shape[-1] to match in_shape")
+
         weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
         kpacked_dtype = x.dtype
         if x.is_cuda and torch.is_autocast_enabled("cuda"):
@@ -986,6 +990,10 @@ class DiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        torch._check(x.dim() == 4, lambda: "Expected a 4-dimensional input tensor")
+        torch._check(x.shape[-2] == self.nlat_in, lambda: "Expected the input latitudes shape[-2] to match in_shape")
+        torch._check(x.shape[-1] == self.nlon_in, lambda: "Expected the input longitudes shape[-1] to match in_shape")
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From 27a98b7742c6ca4953c49b45898101d307c6ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 07/32] fix: reject inputs that are not on the input grid in
 ResampleS2

---
 torch_harmonics/resample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 789fe1c..d63d578 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -234,6 +234,10 @@ class ResampleS2(nn.Module):
         torch.Tensor
             Resampled signal of shape ``(..., nlat_out, nlon_out)``.
         """
+        torch._check(x.dim() >= 2, lambda: "Expected an input tensor with at least 2 dimensions")
+        torch._check(x.shape[-2] == self.nlat_in, lambda: "Expected the input latitudes shape[-2] to match nlat_in")
+        torch._check(x.shape[-1] == self.nlon_in, lambda: "Expected the input longitudes shape[-1] to match nlon_in")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From 2a24405d0944d4f99f48926b55b48f296acafcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 08/32] fix: do not count ignored pixels as class 0 in
 DiceLossS2

---
 torch_harmonics/examples/losses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/examples/losses.py b/torch_harmonics/examples/losses.py
index 52f7a54..b30029d 100644
--- a/torch_harmonics/examples/losses.py
+++ b/torch_harmonics/examples/losses.py
@@ -105,6 +105,8 @@ class DiceLossS2(nn.Module):
 
         # one hot encode
         taroh = nn.functional.one_hot(tar, num_classes=prd.shape[1]).permute(0, 3, 1, 2)
+        if self.ignore_index is not None:
+            taroh = taroh * mask.unsqueeze(1)
 
         # compute numerator and denominator
         intersection = torch.sum((prd * taroh) * self.quad_weights, dim=(-2, -1))
-- 
2.43.0


From f15ebd09596c80a552187caa28b4b47664281179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 09/32] fix: start the running softmax maximum at -inf in the
 reference attention forward

---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From 363058431f699be9244144c4d1d79a1f0021d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 10/32] fix: keep the gradients of spherical resampling finite
 where neighbouring values are equal

---
 .../distributed/distributed_resample.py            | 14 ++++++++++----
 torch_harmonics/resample.py                        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 32f9836..0a1d2c7 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = somega.abs() > 1e-4
+            # keep the unused branch finite, otherwise it turns the gradients into NaN
+            somega = torch.where(use_slerp, somega, 1.0)
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +207,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = somega.abs() > 1e-4
+            # keep the unused branch finite, otherwise it turns the gradients into NaN
+            somega = torch.where(use_slerp, somega, 1.0)
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index d63d578..3cccd19 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = somega.abs() > 1e-4
+            # keep the unused branch finite, otherwise it turns the gradients into NaN
+            somega = torch.where(use_slerp, somega, 1.0)
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +215,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = somega.abs() > 1e-4
+            # keep the unused branch finite, otherwise it turns the gradients into NaN
+            somega = torch.where(use_slerp, somega, 1.0)
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From 84e05cd9888ebded14854bc995d52697420bf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 11/32] fix: compute the degree normalisation of the forward
 vector SHT in float64

---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From b83919b151b1177b59c05ffe2359ac5cc1fe3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:41 +0000
Subject: [PATCH 12/32] fix: AttentionS2 rejects query, key and value that are
 not on its grids

---
 torch_harmonics/attention/attention.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..1daf66b 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -202,6 +202,12 @@ class AttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_extent(query, -2, self.nlat_out, "query latitudes")
+        _check_extent(query, -1, self.nlon_out, "query longitudes")
+        _check_extent(key, -2, self.nlat_in, "key latitudes")
+        _check_extent(key, -1, self.nlon_in, "key longitudes")
+        _check_extent(value, -2, self.nlat_in, "value latitudes")
+        _check_extent(value, -1, self.nlon_in, "value longitudes")
 
         # perform QKV projections
         query = nn.functional.conv2d(query, self.q_weights, bias=self.q_bias)
-- 
2.43.0


From 408ce386d574d2e005b2dfd7cfddba90b58e79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 13/32] fix: NeighborhoodAttentionS2 rejects query, key and
 value of different batch sizes

The compiled kernel indexed all three with the batch size of the key, reading
out of bounds or dropping samples.
---
 torch_harmonics/attention/attention.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 1daf66b..4722e10 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -498,6 +498,8 @@ class NeighborhoodAttentionS2(nn.Module):
         _check_extent(key, -1, self.nlon_in, "key longitudes")
         _check_extent(value, -2, self.nlat_in, "value latitudes")
         _check_extent(value, -1, self.nlon_in, "value longitudes")
+        # the kernels take the batch size from one operand and index the others with it
+        torch._check(key.shape[0] == query.shape[0] and value.shape[0] == query.shape[0], lambda: "Expected query, key and value to have the same batch size")
 
         # Convert to NHWC once, here, and stay in it for the whole module. Every
         # projection is 1x1 (see __init__), so in NHWC it is a plain GEMM over a
-- 
2.43.0


From 352a078bcdeefbe237d3f758488f77464f1d7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 14/32] fix: QuadratureS2 rejects inputs that are not on its
 grid

An extent of 1 was broadcast over the grid.
---
 torch_harmonics/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index 828b3ef..981da7a 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -457,6 +457,8 @@ class QuadratureS2(torch.nn.Module):
         torch.Tensor
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
+        torch._check(x.shape[-2:] == self.quad_weight.shape[-2:], lambda: "Expected the last two dimensions to match img_shape")
+
         # integrate over last two axes only:
         quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
-- 
2.43.0


From c974f37f322dcdaceb44b927c23fc90d19d1a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 15/32] fix: SpectralConvS2 rejects inputs with the wrong
 number of channels

One channel per group was broadcast over the group.
---
 torch_harmonics/spectral_convolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/spectral_convolution.py b/torch_harmonics/spectral_convolution.py
index abeffd3..cc2646b 100644
--- a/torch_harmonics/spectral_convolution.py
+++ b/torch_harmonics/spectral_convolution.py
@@ -214,6 +214,8 @@ class SpectralConvS2(nn.Module):
         torch.Tensor
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
+        torch._check(x.shape[-3] == self.in_channels, lambda: "Expected the channels shape[-3] to match in_channels")
+
         dtype = x.dtype
 
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
-- 
2.43.0


From 5bb81f68cc6e5844f0b20f718c4ecf4d0c2ceb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 16/32] fix: distributed DISCO layers with a single filter
 entry on a rank

squeeze() dropped the entry dimension when exactly one entry was left.
---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..7baf18d 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From dc222189be26006f5968f9331ec96534027a46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:21 +0000
Subject: [PATCH 17/32] fix: NeighborhoodAttentionS2 can be deep-copied,
 pickled and saved

---
 torch_harmonics/attention/attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 4722e10..47777a0 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -451,10 +451,10 @@ class NeighborhoodAttentionS2(nn.Module):
             self.q_norm_weights = None
             self.k_norm_weights = None
 
-        if self.optimized_kernel:
-            self.attention_handle = _neighborhood_s2_attention_optimized
-        else:
-            self.attention_handle = _neighborhood_s2_attention_torch
+    @property
+    def attention_handle(self):
+        # looked up rather than stored: custom ops cannot be pickled, which would prevent copying and saving the module
+        return _neighborhood_s2_attention_optimized if self.optimized_kernel else _neighborhood_s2_attention_torch
 
     def extra_repr(self):
         return f"in_shape={(self.nlat_in, self.nlon_in)}, out_shape={(self.nlat_out, self.nlon_out)}, in_channels={self.in_channels}, out_channels={self.out_channels}, k_channels={self.k_channels}, theta_cutoff={self.theta_cutoff}"
-- 
2.43.0


From 1b96b35c26ae9b1a71f566e3c9491034c779f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:38 +0000
Subject: [PATCH 18/32] fix: spherical metrics do not count ignored pixels as
 true negatives

---
 torch_harmonics/examples/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/examples/metrics.py b/torch_harmonics/examples/metrics.py
index 337f3ab..0939dea 100644
--- a/torch_harmonics/examples/metrics.py
+++ b/torch_harmonics/examples/metrics.py
@@ -80,7 +80,7 @@ def _get_stats_multiclass(
         ignore = target == ignore_index
         output = torch.where(ignore, -1, output)
         target = torch.where(ignore, -1, target)
-        ignore_per_sample = ignore.view(batch_size, -1).sum(1)
+        ignore_per_sample = torch.sum(ignore * quad_weights, dim=tuple(range(1, ignore.dim())))
 
     tp_count = torch.zeros(batch_size, num_classes, dtype=torch.float32, device=output.device)
     fp_count = torch.zeros(batch_size, num_classes, dtype=torch.float32, device=output.device)
@@ -108,6 +108,9 @@ def _get_stats_multiclass(
 
     # true negatives is the leftovers
     tn_count = torch.sum(quad_weights) - tp_count - fp_count - fn_count
+    if ignore_index is not None:
+        # ignored pixels are no negatives either
+        tn_count = tn_count - ignore_per_sample.unsqueeze(1)
     return tp_count, fp_count, fn_count, tn_count
 
 
-- 
2.43.0


From 3b3d60f7e427331ba1f26e37e24b5801bd0dbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 19/32] Revert "fix: spherical metrics do not count ignored
 pixels as true negatives"

This reverts commit 1b96b35c26ae9b1a71f566e3c9491034c779f221.
---
 torch_harmonics/examples/metrics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/torch_harmonics/examples/metrics.py b/torch_harmonics/examples/metrics.py
index 0939dea..337f3ab 100644
--- a/torch_harmonics/examples/metrics.py
+++ b/torch_harmonics/examples/metrics.py
@@ -80,7 +80,7 @@ def _get_stats_multiclass(
         ignore = target == ignore_index
         output = torch.where(ignore, -1, output)
         target = torch.where(ignore, -1, target)
-        ignore_per_sample = torch.sum(ignore * quad_weights, dim=tuple(range(1, ignore.dim())))
+        ignore_per_sample = ignore.view(batch_size, -1).sum(1)
 
     tp_count = torch.zeros(batch_size, num_classes, dtype=torch.float32, device=output.device)
     fp_count = torch.zeros(batch_size, num_classes, dtype=torch.float32, device=output.device)
@@ -108,9 +108,6 @@ def _get_stats_multiclass(
 
     # true negatives is the leftovers
     tn_count = torch.sum(quad_weights) - tp_count - fp_count - fn_count
-    if ignore_index is not None:
-        # ignored pixels are no negatives either
-        tn_count = tn_count - ignore_per_sample.unsqueeze(1)
     return tp_count, fp_count, fn_count, tn_count
 
 
-- 
2.43.0


From e43b5789b22a79333b907ec2cbc886f50f371c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:47 +0000
Subject: [PATCH 20/32] Revert "fix: do not count ignored pixels as class 0 in
 DiceLossS2"

This reverts commit 2a24405d0944d4f99f48926b55b48f296acafcee.
---
 torch_harmonics/examples/losses.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/torch_harmonics/examples/losses.py b/torch_harmonics/examples/losses.py
index b30029d..52f7a54 100644
--- a/torch_harmonics/examples/losses.py
+++ b/torch_harmonics/examples/losses.py
@@ -105,8 +105,6 @@ class DiceLossS2(nn.Module):
 
         # one hot encode
         taroh = nn.functional.one_hot(tar, num_classes=prd.shape[1]).permute(0, 3, 1, 2)
-        if self.ignore_index is not None:
-            taroh = taroh * mask.unsqueeze(1)
 
         # compute numerator and denominator
         intersection = torch.sum((prd * taroh) * self.quad_weights, dim=(-2, -1))
-- 
2.43.0


From b329b79ce3e2a98c8c2e8b22b27ead65ecb6dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:26 +0000
Subject: [PATCH 21/32] fix: DistributedNeighborhoodAttentionS2 refuses
 neighborhoods that reach beyond the adjacent polar ranks

---
 torch_harmonics/distributed/distributed_attention.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..a3c0036 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -958,6 +958,14 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
             # Use the lat_out_lo of our polar rank to compute ho_global.
             self.r_lat = self._compute_r_lat()
 
+        # The halo exchange only reaches the adjacent polar ranks, so a rank can
+        # provide at most the latitude rows that it owns.
+        if self.r_lat > min(self.lat_in_shapes):
+            raise ValueError(
+                f"DistributedNeighborhoodAttentionS2: the neighborhood needs a halo of {self.r_lat} latitude rows, "
+                f"but the polar ranks own {self.lat_in_shapes} rows. Use fewer polar ranks or a smaller theta_cutoff."
+            )
+
     # -----------------------------------------------------------------------
 
     def _build_local_psi(self):
-- 
2.43.0


From b6fd4039eab2beea1d1c1f41e59349e6df496ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 22/32] fix: distributed DISCO convolutions reject inputs that
 are not on their part of the grid

---
 torch_harmonics/distributed/distributed_convolution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index 7baf18d..6b4b374 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -374,6 +374,11 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         return result
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+
+        torch._check(x.dim() == 4, lambda: "Expected a 4-dimensional input tensor")
+        torch._check(x.shape[-2] == self.lat_in_shapes[self.comm_rank_polar], lambda: "Expected the input latitudes shape[-2] to match the local share of in_shape")
+        torch._check(x.shape[-1] == self.lon_in_shapes[self.comm_rank_azimuth], lambda: "Expected the input longitudes shape[-1] to match the local share of in_shape")
+
         if self.fused:
             # reordered a2a: einsum-first on the local channel shard via the
             # fused conv op (K-expanded recomputed in backward, not saved).
@@ -595,6 +600,10 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
 
+        torch._check(x.dim() == 4, lambda: "Expected a 4-dimensional input tensor")
+        torch._check(x.shape[-2] == self.lat_in_shapes[self.comm_rank_polar], lambda: "Expected the input latitudes shape[-2] to match the local share of in_shape")
+        torch._check(x.shape[-1] == self.lon_in_shapes[self.comm_rank_azimuth], lambda: "Expected the input longitudes shape[-1] to match the local share of in_shape")
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From ec1334b1cdc7175700505b96e7eec0ef5d3db194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 23/32] fix: DistributedResampleS2 rejects inputs that are not
 on its part of the grid

---
 torch_harmonics/distributed/distributed_resample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 0a1d2c7..a8df32b 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -218,6 +218,9 @@ class DistributedResampleS2(nn.Module):
 
     def forward(self, x: torch.Tensor):
 
+        torch._check(x.shape[-2] == self.lat_in_shapes[self.comm_rank_polar], lambda: "Expected the input latitudes shape[-2] to match the local share of nlat_in")
+        torch._check(x.shape[-1] == self.lon_in_shapes[self.comm_rank_azimuth], lambda: "Expected the input longitudes shape[-1] to match the local share of nlon_in")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From 318912a0615606cd93ec9acd075653c9079b13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 24/32] fix: DistributedQuadratureS2 rejects inputs that are
 not on its part of the grid

---
 torch_harmonics/distributed/distributed_quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 8b14bd8..6381fae 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -129,6 +129,8 @@ class DistributedQuadratureS2(torch.nn.Module):
         self.register_buffer("quad_weight", quad_weight, persistent=False)
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        torch._check(x.shape[-2:] == self.quad_weight.shape[-2:], lambda: "Expected the last two dimensions to match the local share of img_shape")
+
         # integrate over last two axes only:
         quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
-- 
2.43.0


From ff758091c2d01136846f85bf7fec045a9dd5b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 25/32] fix: DistributedSpectralConvS2 rejects inputs with the
 wrong number of channels

---
 torch_harmonics/distributed/distributed_spectral_convolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..ff179e1 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -193,6 +193,8 @@ class DistributedSpectralConvS2(nn.Module):
         return resc
 
     def forward(self, x):
+        torch._check(x.shape[-3] == self.in_channels, lambda: "Expected the channels shape[-3] to match in_channels")
+
         dtype = x.dtype
 
         # compute integral in case if bias is used
-- 
2.43.0


From d3f91ed1f2c9e49d3e93f5d6f33af39f0a90e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 26/32] fix: DistributedNeighborhoodAttentionS2 rejects query,
 key and value of different batch sizes

---
 torch_harmonics/distributed/distributed_attention.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index a3c0036..8fa10cd 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -1185,6 +1185,8 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
         _check_extent(key, -1, self.nlon_in_local, "key longitudes")
         _check_extent(value, -2, self.nlat_in_local, "value latitudes")
         _check_extent(value, -1, self.nlon_in_local, "value longitudes")
+        # the kernels take the batch size from one operand and index the others with it
+        torch._check(key.shape[0] == query.shape[0] and value.shape[0] == query.shape[0], lambda: "Expected query, key and value to have the same batch size")
 
         # ---- 1. project to k/v/q ----
         key_proj = nn.functional.conv2d(key, self.k_weights, bias=self.k_bias)
-- 
2.43.0


From 4dc22e401077b3123014f01ec67ff7a05845f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 27/32] fix: rescale only degree 0 in the distributed spectral
 convolution's initialisation

---
 .../distributed/distributed_spectral_convolution.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index ff179e1..959322e 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -180,7 +180,9 @@ class DistributedSpectralConvS2(nn.Module):
         # Compute scaling factor for correct initialization
         scale = math.sqrt(1.0 / (in_channels // num_groups)) * torch.ones(self.lmax_local, dtype=torch.complex64)
         # seemingly the first weight is not really complex, so we need to account for that
-        scale[0] *= math.sqrt(2.0)
+        # (degree 0 is held by the first polar rank only)
+        if self.comm_rank_polar == 0:
+            scale[0] *= math.sqrt(2.0)
         self.weight = nn.Parameter(scale * torch.randn(*weight_shape, dtype=torch.complex64))
 
         if bias:
-- 
2.43.0


From 2e4fe77ab63e427cd6b1148931d91ced7b661268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 28/32] fix: allow an empty support in the Zernike basis

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..609668e 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -434,7 +434,7 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        max_bound = bound.max().item() if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From 3b67bb85638a04346d1822111348ba4a822b4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:34 +0000
Subject: [PATCH 29/32] fix: distributed DISCO convolutions refuse longitude
 counts that are not multiples

---
 torch_harmonics/distributed/distributed_convolution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index 6b4b374..652a05b 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -225,6 +225,10 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        # make sure the p-shift works by checking that longitudes are divisible
+        if self.nlon_in % self.nlon_out != 0:
+            raise ValueError(f"nlon_in ({self.nlon_in}) must be an integer multiple of nlon_out ({self.nlon_out}) for the DISCO p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
@@ -511,6 +515,10 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        # make sure the p-shift works by checking that longitudes are divisible
+        if self.nlon_out % self.nlon_in != 0:
+            raise ValueError(f"nlon_out ({self.nlon_out}) must be an integer multiple of nlon_in ({self.nlon_in}) for the DISCO transpose p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
-- 
2.43.0


From 8b09da5f907b4ab951bca9c6acec8d7735fe1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:07 +0000
Subject: [PATCH 30/32] fix: DistributedResampleS2 averages the pole rows in
 single precision

The sum over a latitude overflows in half precision although the mean is
representable; the serial ResampleS2 returns the finite mean.
---
 torch_harmonics/distributed/distributed_resample.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index a8df32b..ff01e55 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -177,8 +177,10 @@ class DistributedResampleS2(nn.Module):
 
     def _expand_poles(self, x: torch.Tensor):
         """Expand the data to include pole values for interpolation."""
-        x_north = x[..., 0, :].sum(dim=-1, keepdims=True)
-        x_south = x[..., -1, :].sum(dim=-1, keepdims=True)
+        # sum in at least single precision: the sum may exceed the range of half precision although the mean does not
+        sum_dtype = torch.promote_types(x.dtype, torch.float32)
+        x_north = x[..., 0, :].sum(dim=-1, keepdims=True, dtype=sum_dtype)
+        x_south = x[..., -1, :].sum(dim=-1, keepdims=True, dtype=sum_dtype)
         x_count = torch.tensor([x.shape[-1]], dtype=torch.long, device=x.device, requires_grad=False)
 
         if self.comm_size_azimuth > 1:
@@ -193,8 +195,8 @@ class DistributedResampleS2(nn.Module):
             x_south = copy_to_azimuth_region(x_south)
 
         x = nn.functional.pad(x, pad=[0, 0, 1, 1], mode="constant")
-        x[..., 0, :] = x_north[...]
-        x[..., -1, :] = x_south[...]
+        x[..., 0, :] = x_north[...].to(x.dtype)
+        x[..., -1, :] = x_south[...].to(x.dtype)
 
         return x
 
-- 
2.43.0


From 20cb79b6b5e228ed0f3d47147207176ae0ea83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:20 +0000
Subject: [PATCH 31/32] fix: DistributedSpectralConvS2 with bias accepts
 double-precision input

---
 .../distributed_spectral_convolution.py         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 959322e..48b1671 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -199,16 +199,17 @@ class DistributedSpectralConvS2(nn.Module):
 
         dtype = x.dtype
 
-        # compute integral in case if bias is used
-        if hasattr(self, "spectral_bias"):
-            integral = self.quadrature(x)
-            if self.comm_size_polar > 1:
-                integral = copy_to_polar_region(integral)
-            if self.comm_size_azimuth > 1:
-                integral = copy_to_azimuth_region(integral)
-
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
             x = x.to(torch.float32)
+
+            # compute integral in case if bias is used
+            if hasattr(self, "spectral_bias"):
+                integral = self.quadrature(x)
+                if self.comm_size_polar > 1:
+                    integral = copy_to_polar_region(integral)
+                if self.comm_size_azimuth > 1:
+                    integral = copy_to_azimuth_region(integral)
+
             x = self.sht(x).contiguous()
 
         # store the shapes
-- 
2.43.0


From 13d24e918ec1195e7e6d91017c1c80919d70cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:54 +0000
Subject: [PATCH 32/32] fix: an interrupted MOLA download is not taken for a
 cached one

---
 torch_harmonics/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/utils.py b/torch_harmonics/utils.py
index 1b3dce8..7d32193 100644
--- a/torch_harmonics/utils.py
+++ b/torch_harmonics/utils.py
@@ -79,8 +79,12 @@ def load_mola_elevation(
 
     if not os.path.exists(path):
         req = urllib.request.Request(_MOLA_URL, headers={"User-Agent": "torch-harmonics"})
-        with urllib.request.urlopen(req) as resp, open(path, "wb") as f:
+        # move the image into place once it is complete: an interrupted download must not
+        # be taken for a cached one
+        part = f"{path}.{os.getpid()}.part"
+        with urllib.request.urlopen(req) as resp, open(part, "wb") as f:
             f.write(resp.read())
+        os.replace(part, path)
 
     img = np.array(Image.open(path).convert("L"), dtype=np.float32) / 255.0
     data = torch.from_numpy(img)
-- 
2.43.0


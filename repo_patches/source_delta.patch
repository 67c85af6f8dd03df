From 443bde266442be0e3b427a0cfe4648435d16b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 01/37] fix: piecewise layers honour length instead of assuming
 the domain [-1, 1]

---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..2f58be2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..502c222 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -462,8 +462,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -599,7 +601,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -694,7 +696,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 80464275bd714eab03e875bbcd199568714fa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 02/37] fix: polynomial_prod layer can be constructed
 (BasisFlatProd lacked num_basis)

---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 2f58be2..c9c0e10 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From fcae83ae07ab00cf5256564eeba9a4efa80356c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 03/37] fix: Product layer works with bias=False

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From 1c25f3a4044b7c05f2d7463380d5640b3b46710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 04/37] fix: register the parameters of SwitchLayer and
 SumLayer children

---
 high_order_layers_torch/layers.py | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..a69c29d 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,20 +192,22 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
-            high_order_fc_layers(
-                layer_type=layer_type,
-                n=n,
-                in_features=in_features,
-                out_features=out_features,
-                segments=segments,
-                rescale_output=False,
-                scale=scale,
-                periodicity=None,
-                device=device,
-            )
-            for _ in range(num_input_layers)
-        ]
+        self._layers = nn.ModuleList(
+            [
+                high_order_fc_layers(
+                    layer_type=layer_type,
+                    n=n,
+                    in_features=in_features,
+                    out_features=out_features,
+                    segments=segments,
+                    rescale_output=False,
+                    scale=scale,
+                    periodicity=None,
+                    device=device,
+                )
+                for _ in range(num_input_layers)
+            ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From 262991e9e291d4510b0194abed30d1e67fd32b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:04 +0000
Subject: [PATCH 05/37] fix: p-refinement of product layers no longer raises
 UnboundLocalError

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 502c222..7a41bca 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -789,10 +789,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 9de240f73f4ce288913da5347ad1ee00fbd9c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:04 +0000
Subject: [PATCH 06/37] fix: h-refinement of layers whose period is shorter
 than their length

---
 high_order_layers_torch/PolynomialLayers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 7a41bca..ec50d41 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -269,6 +269,9 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
+        return self._segment_index(x)
+
+    def _segment_index(self, x: torch.Tensor) -> Tensor:
         # get the segment index
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
@@ -928,8 +931,9 @@ def refine_polynomial_layer(
                     # compute x in the global space
                     x_global = layer_out.x_global(x_out, j)
 
-                    # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    # figure out which segments these correspond to in the input, these
+                    # are positions in the domain so no periodicity is applied
+                    index_in = layer_in._segment_index(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0


From 10fd8142dc1b3b58e888cf0769d1ce085d34776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:02 +0000
Subject: [PATCH 07/37] fix: rescale_output of 1d convolutions divides by the
 number of inputs

---
 high_order_layers_torch/FunctionalConvolution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..efae7a3 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -1,4 +1,5 @@
 import logging
+import math
 from abc import ABC
 from typing import Any, Optional, Union
 
@@ -207,7 +208,7 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -306,7 +307,7 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -433,7 +434,7 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -560,7 +561,7 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From 305ffa88762a4bd61b660416f1028e5e4175cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:02 +0000
Subject: [PATCH 08/37] fix: 1d piecewise convolutions accept non-contiguous
 inputs

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index c9c0e10..31ba980 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From 74f2d7ae79e849fc9c1d3248e78069c2e922fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:02 +0000
Subject: [PATCH 09/37] fix: FourierConvolution1d can be constructed

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index efae7a3..f262506 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -260,7 +260,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From 0ea80a22613afac329ef1f576312fd4434575465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:20 +0000
Subject: [PATCH 10/37] fix: piecewise convolutions work in double precision

---
 high_order_layers_torch/Basis.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 31ba980..3cfc9fc 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -102,6 +102,7 @@ class PiecewiseExpand:
             x.shape[2],
             x.shape[3],
             self._variables,
+            dtype=out.dtype,
             device=device,
         )
 
@@ -186,7 +187,12 @@ class PiecewiseExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            dtype=out.dtype,
+            device=device,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -267,6 +273,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[2],
             x.shape[3],
             self._variables,
+            dtype=out.dtype,
             device=x.device,
         )
 
@@ -347,7 +354,12 @@ class PiecewiseDiscontinuousExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            dtype=out.dtype,
+            device=device,
         )
 
         wid_min_flat = wid_min.reshape(-1)
-- 
2.43.0


From 972df0c06f993ddad2475c8c86c2a4d9a5e3253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:49 +0000
Subject: [PATCH 11/37] fix: SparseLion applies weight decay to the updated
 coefficients

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..9734230 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,8 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    # indexing with a mask copies, so the decayed values have to be assigned
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From a984f59546b6521ea66383c890b6727e7cf36458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 12/37] fix: MultiHeadAttention applies each sample's mask to
 that sample

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..353f24f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From b4f1cfefc1099afbbac1049475697b2acea79925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 13/37] fix: MultiHeadLocationAwareAttention averages the
 values of its own head

---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 353f24f..f49af6a 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From e745692ef495fec809fb422aa5fb46c019a1de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 14/37] fix: CustomizingAttention passes keys and values to its
 attention

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index f49af6a..4af543c 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -504,7 +504,7 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
+        context, attn = self.scaled_dot_attn(query, value, value)
         attn = attn.squeeze()
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
-- 
2.43.0


From 0e7cd09393e690d0e795d13b03358027811d9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 15/37] fix: CustomizingAttention reads last_attn in the order
 it returns attn

---
 high_order_layers_torch/attentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 4af543c..f7233d4 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -516,8 +516,8 @@ class CustomizingAttention(nn.Module):
 
     def get_loc_energy(self, last_attn: Tensor, batch_size: int, v_len: int) -> Tensor:
         conv_feat = self.conv1d(last_attn.unsqueeze(1))
-        conv_feat = conv_feat.view(batch_size, self.num_heads, -1, v_len).permute(
-            0, 1, 3, 2
+        conv_feat = conv_feat.view(self.num_heads, batch_size, -1, v_len).permute(
+            1, 0, 3, 2
         )
 
         loc_energy = self.loc_proj(conv_feat).view(
-- 
2.43.0


From 9e5b07a67ed9a289d00c6fffbd6d25048799f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:12 +0000
Subject: [PATCH 16/37] fix: HighOrderMLPList builds all of its layers

---
 high_order_layers_torch/networks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..d5f7c91 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,11 +133,11 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
-            if normalization is not None and normalization[i] is not None:
-                layer_list.append(normalization[i]())
-            if non_linearity is not None and non_linearity[i] is not None:
-                layer_list.append(non_linearity[i])
+        for i in range(1, len(layer_type)):
+            if normalization is not None and normalization[i - 1] is not None:
+                layer_list.append(normalization[i - 1]())
+            if non_linearity is not None and non_linearity[i - 1] is not None:
+                layer_list.append(non_linearity[i - 1])
 
             this_layer = high_order_fc_layers(
                 layer_type=layer_type[i],
-- 
2.43.0


From 56b05cb2cc9eca0874db0e64b825c84a2d690697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 17/37] fix: the scale of a high order network sets the length
 of its layers

---
 high_order_layers_torch/layers.py   |  4 ++--
 high_order_layers_torch/networks.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index a69c29d..85abf17 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -181,7 +181,7 @@ class SwitchLayer(Module):
         n: str,
         in_features: int,
         out_features: int,
-        scale: float = 2.0,
+        length: float = 2.0,
         segments: int = None,
         normalization: Callable[[Any], Any] = None,
         num_input_layers: int = 2,
@@ -201,7 +201,7 @@ class SwitchLayer(Module):
                     out_features=out_features,
                     segments=segments,
                     rescale_output=False,
-                    scale=scale,
+                    length=length,
                     periodicity=None,
                     device=device,
                 )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index d5f7c91..17b2afd 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -129,7 +129,7 @@ class HighOrderMLPList(nn.Module):
             out_features=width[1],
             segments=segments[0],
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
@@ -146,7 +146,7 @@ class HighOrderMLPList(nn.Module):
                 out_features=width[i + 1],
                 segments=segments[i],
                 rescale_output=rescale_output,
-                scale=scale,
+                length=scale,
                 periodicity=periodicity,
             )
             layer_list.append(this_layer)
@@ -226,7 +226,7 @@ class HighOrderMLP(nn.Module):
             out_features=hidden_width,
             segments=in_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -249,7 +249,7 @@ class HighOrderMLP(nn.Module):
                 out_features=hidden_width,
                 segments=hidden_segments,
                 rescale_output=rescale_output,
-                scale=scale,
+                length=scale,
                 periodicity=periodicity,
                 device=device,
                 initialization=initialization,
@@ -276,7 +276,7 @@ class HighOrderMLP(nn.Module):
             out_features=out_width,
             segments=out_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
@@ -362,7 +362,7 @@ class HighOrderMultiMLP(nn.Module):
             out_features=hidden_width,
             segments=in_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -422,7 +422,7 @@ class HighOrderMultiMLP(nn.Module):
             out_features=out_width,
             segments=out_segments,
             rescale_output=rescale_output,
-            scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
-- 
2.43.0


From 4188158eeeb788797f47eea4054f0e73a51fd8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 18/37] fix: high order networks pass their initialization on
 to the layers

---
 high_order_layers_torch/networks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 17b2afd..a73333c 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -229,7 +229,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -252,7 +252,7 @@ class HighOrderMLP(nn.Module):
                 length=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -279,7 +279,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -365,7 +365,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -425,7 +425,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From 5bd5f5063be5b9a45dd2bb4cc55158a9372d9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 19/37] fix: HighOrderMultiMLP can be constructed

---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index a73333c..9e1a3f0 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -379,10 +379,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -429,7 +428,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From d50423916e4c8e72ea4f9f6751bee4ef99c273a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 20/37] fix: resnet adds the output of the previous layer

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 9e1a3f0..d0f9cb4 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -257,7 +257,7 @@ class HighOrderMLP(nn.Module):
 
             # This will add the result of the previous layer after normalization
             if resnet is True and i > 0:
-                hidden_layer = SumLayer(layer_list=[hidden_layer, layer_list[-1]])
+                hidden_layer = SumLayer(layer_list=[hidden_layer, nn.Identity()])
 
             layer_list.append(hidden_layer)
 
-- 
2.43.0


From 588247c9e023d1ed60a2121d86bc56f378e53033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 21/37] fix: SumLayer sums any number of layers

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 85abf17..09f88c5 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -165,7 +165,7 @@ class SumLayer(nn.Module):
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
-        return torch.add(*x_all)
+        return sum(x_all)
 
 
 class SwitchLayer(Module):
-- 
2.43.0


From 5a3b521dfb00ac82070333a04e4c80a11d32d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 22/37] fix: convolutional networks refuse lists of
 inconsistent lengths

---
 high_order_layers_torch/networks.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index d0f9cb4..e71e6ca 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -502,18 +502,17 @@ class HighOrderFullyConvolutionalNetwork(nn.Module):
 
         print("self.stride", self.stride)
 
-        if (
+        if not (
             len(self.segments)
             == len(self.kernel_size)
             == len(self.layer_type)
             == len(self.n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self.segments)}, kernel_size {len(self.kernel_size)}, layer_type {len(self.layer_type)} and n {len(self.n)} must be the same size."
             )
 
-        if len(self.channels) == len(self.n) + 1 is False:
+        if len(self.channels) != len(self.n) + 1:
             raise ValueError(
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
@@ -592,24 +591,23 @@ class HighOrderFullyDeconvolutionalNetwork(nn.Module):
                 f"Channels list must have at least 2 values [input_channels, output_channels]"
             )
 
-        size = len(self._channels)
+        size = len(self._kernel_size)
         self._layer_type = scalar_to_list(self._layer_type, size)
         self._n = scalar_to_list(self._n, size)
         self._stride = scalar_to_list(self._stride, size)
         self._segments = scalar_to_list(self._segments, size)
 
-        if (
+        if not (
             len(self._segments)
             == len(self._kernel_size)
             == len(self._layer_type)
             == len(self._n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self._segments)}, kernel_size {len(self._kernel_size)}, layer_type {len(self._layer_type)} and n {len(self._n)} must be the same size."
             )
 
-        if len(self._channels) == len(self._n) + 1 is False:
+        if len(self._channels) != len(self._n) + 1:
             raise ValueError(
                 f"Length of channels list {self._channels} should be one more than number of layers."
             )
@@ -703,18 +701,17 @@ class HighOrderTailFocusNetwork(nn.Module):
         self.segments = scalar_to_list(self.segments, size)
         self.focus = scalar_to_list(self.focus, size)
 
-        if (
+        if not (
             len(self.segments)
             == len(self.kernel_size)
             == len(self.layer_type)
             == len(self.n)
-            is False
         ):
             raise ValueError(
                 f"Lists for segments {len(self.segments)}, kernel_size {len(self.kernel_size)}, layer_type {len(self.layer_type)} and n {len(self.n)} must be the same size."
             )
 
-        if len(self.channels) == len(self.n) + 1 is False:
+        if len(self.channels) != len(self.n) + 1:
             raise ValueError(
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
-- 
2.43.0


From 7d632244802800230762ec47baeaa4015926975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 23/37] fix: compute_sizes accounts for padding, missing stride
 and short inputs

---
 high_order_layers_torch/networks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index e71e6ca..6b3c0aa 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -748,11 +748,13 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            padded = widths[i] + 2 * self._padding
+            nw = math.ceil((padded - self.kernel_size[i] + 1) / stride)
             widths.append(nw)
 
         output_sizes = [
-            self.channels[i] * focus
+            self.channels[i] * min(focus, widths[i])
             for i, focus in enumerate(self.focus + [widths[-1]])
         ]
 
-- 
2.43.0


From 19d46b93680cc2e94f60756ce40b2af3ba2b4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 24/37] fix: HighOrderTailFocusNetwork keeps every tail without
 normalization

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 6b3c0aa..de487e8 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -765,7 +765,9 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            # The tail of a layer is taken after its normalization, if it has one
+            last = "normal" in name or f"normal_{count - 1}" not in self.layer_dict
+            if last and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 482e9fa22935bd24cda2662f56bd6aad00520bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 25/37] fix: piecewise layers honour initialize (and the device
 of product layers)

---
 high_order_layers_torch/PolynomialLayers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index ec50d41..481c3cc 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -557,6 +557,7 @@ class PiecewisePolynomial(Piecewise):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -583,6 +584,7 @@ class PiecewisePolynomialProd(Piecewise):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -731,6 +733,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -756,6 +759,8 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            device=device,
+            **kwargs,
         )
 
 
-- 
2.43.0


From 1a531e94bdf4a85d53e2784d274d3c61d1eff9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 26/37] fix: uniform initialisation of discontinuous layers
 honours weight_magnitude

---
 high_order_layers_torch/PolynomialLayers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 481c3cc..75760a8 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -620,7 +620,9 @@ class PiecewiseDiscontinuous(nn.Module):
                 self.w, out_features, in_features, weight_magnitude, device
             )
         else:
-            self.w.data.uniform_(-1 / in_features, 1 / in_features)
+            self.w.data.uniform_(
+                -weight_magnitude / in_features, weight_magnitude / in_features
+            )
 
         self._length = length
         self._half = 0.5 * length
-- 
2.43.0


From eb080c5bfc93636c1c70047a5285fdb567bb9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 27/37] fix: SwitchLayer does not multiply into the output of
 its first child

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 09f88c5..b749d53 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -224,7 +224,7 @@ class SwitchLayer(Module):
 
         final = outputs[0]
         for i in range(1, len(outputs)):
-            final *= outputs[i]
+            final = final * outputs[i]
 
         if self._normalization is not None:
             final = self._normalization(final)
-- 
2.43.0


From 8d092a0a58ab86dc12e32e7e61e6a8818c98a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 28/37] fix: LagrangeBasisND interpolates for even n too (sign
 of the denominators)

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..91f5c76 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From 75aec98c2cb4d6b12a454c2ab3628842b8e57caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 29/37] fix: n dimensional polynomials accept one n for all
 dimensions

---
 high_order_layers_torch/LagrangePolynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 91f5c76..a4a6fe8 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -85,8 +85,9 @@ class LagrangeBasisND:
     Supports different n values for each dimension.
     """
     def __init__(
-        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", **kwargs
+        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", dimensions: int = 2, **kwargs
     ):
+        n = [n] * dimensions if isinstance(n, int) else n
         self.n = n
         self.dimensions = len(n)
         self.X = [(length / 2.0) * chebyshevLobatto(ni).to(device) for ni in n]
-- 
2.43.0


From bf10ad9fe53f4a7e229de0bee63afc2b8279f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 30/37] fix: PiecewiseND has its own weights for every input
 and output

---
 high_order_layers_torch/PolynomialLayers.py | 29 +++++----------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 75760a8..dd9dd69 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -391,8 +391,6 @@ class PiecewiseND(torch.nn.Module):
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
             )
 
-        print('n', n, 'segments', self.segments)
-
         self.in_features = in_features
         self.out_features = out_features
         self.device = device
@@ -433,13 +431,10 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
-        )
-        print("self.w.data", self.w)
+        with torch.no_grad():
+            self.w.copy_(segment_values.unsqueeze(-1).expand_as(self.w))
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -516,22 +511,12 @@ class PiecewiseND(torch.nn.Module):
         return expanded_indices
 
     def _reshape_weights(self, weight_indices):
-        # Reshape weights based on weight indices
-        batch_size, num_inputs, _ = weight_indices.shape
-        weight_indices = weight_indices.unsqueeze(2).expand(
-            -1, -1, self.out_features, -1
-        )
-
-        # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
-        )
+        # Select the weights of every input and output for each input point
+        inputs = torch.arange(self.in_features, device=self.device).view(1, -1, 1, 1)
+        outputs = torch.arange(self.out_features, device=self.device).view(1, 1, -1, 1)
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
+        # [batch_size, num_inputs, out_features, weights_per_segment]
+        return self.w[inputs, outputs, weight_indices.unsqueeze(2)]
 
 
 class PiecewisePolynomial(Piecewise):
-- 
2.43.0


From 8910c1dd5b113b2def8eaf7926528a213a5052ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:45 +0000
Subject: [PATCH 31/37] fix: FourierSeriesEmbedding returns its layer

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From cd3ffb40ae3b8c5e1f6a3eee6aca9b1aae971b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:45 +0000
Subject: [PATCH 32/37] fix: ClassicSinusoidalEmbedding of dimension 2

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From f237a72edd4cb19eeff88aed9348c03c4bf99ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:45 +0000
Subject: [PATCH 33/37] fix: positions_from_mesh pairs every axis with the
 orthogonal one

---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From 5c4b558320bbfa6c158811849726ddc3c3f64574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 34/37] fix: select_network uses n_hidden for the hidden layers

---
 high_order_layers_torch/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..af266d0 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -136,7 +136,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
-- 
2.43.0


From 98b862c4fbf6b082b9321744ed787811762c9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 35/37] fix: select_network reads output width and model_type
 from cfg.net

---
 high_order_layers_torch/modules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index af266d0..879c945 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -118,7 +118,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
@@ -185,7 +185,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input or high_order_conv!"
         )
 
     return model
-- 
2.43.0


From 0cd2655badb1181f33d5f1158a424b7d168eda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 36/37] fix: plateau scheduler works with torch versions
 without verbose

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 879c945..a3b063b 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From 0464e6bb3bee5e8f9ea27c2212fe518f74c54f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:17 +0000
Subject: [PATCH 37/37] fix: alpha of the product bases removes the linear term
 like the linear product layer

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 3cfc9fc..a119d69 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -491,7 +491,7 @@ class BasisFlatProd:
         assemble = assemble + 1
 
         # Compute sum and product at output
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
 
@@ -556,6 +556,6 @@ class BasisProd:
         assemble = 1 + assemble
 
         # Compute the product possibly removing the linear term.
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
-- 
2.43.0


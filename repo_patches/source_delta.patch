From b6627e5ca4210c2fc38fdcd557d2559d92e8c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:28 +0000
Subject: [PATCH 01/10] fix: register SumLayer's layers so their weights are
 trained and saved

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..d693d22 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
-- 
2.43.0


From 121eb999aeae2c8c7ed35703a22c972a63a94ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 02/10] fix: register SwitchLayer's input layers so their
 weights are trained and saved

---
 high_order_layers_torch/layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index d693d22..1375d6f 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        layers = [
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -206,6 +206,7 @@ class SwitchLayer(Module):
             )
             for _ in range(num_input_layers)
         ]
+        self._layers = nn.ModuleList(layers)
 
         self._normalization = normalization
 
-- 
2.43.0


From 93dabfe9efa5d1a97e3dc26b587673177a81699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 03/10] fix: apply SparseLion weight decay to the parameter
 instead of a copy

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..d711ad7 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] *= 1 - lr * wd
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From ad45964b9237853015d3ab3c372b91c44f5c9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 04/10] fix: do not leave uninitialised memory in the
 parameters of Function layers

---
 high_order_layers_torch/PolynomialLayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..e3469b5 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -54,7 +54,7 @@ class Function(nn.Module):
             )
 
         self.result = torch.nn.Parameter(
-            data=torch.empty(out_features), requires_grad=True
+            data=torch.zeros(out_features), requires_grad=True
         )
 
     def forward(self, x: torch.Tensor):
-- 
2.43.0


From 85ed7345440411fa6049dbbc7972b1721ddb8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 05/10] fix: line MultiHeadAttention's mask up with the
 head-major batch

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..353f24f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From 80af7c4e8e497a1a2012871c48f9dd75aaae4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:46 +0000
Subject: [PATCH 06/10] fix: drop ReduceLROnPlateau's removed verbose argument

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..17dedfa 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From d6bae173c7aa0613605cc704533b6595065b12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 07/10] fix: let p-refinement handle the product piecewise
 layers

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index e3469b5..00a08a0 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -787,10 +787,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 816a6c3d31774c696aa9054779b380f099b772cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:35 +0000
Subject: [PATCH 08/10] fix: create LazyLayerNormLastDim's parameters up front
 so they are trained, saved and restored

---
 high_order_layers_torch/layers.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 1375d6f..0060929 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -3,6 +3,8 @@ import math
 import torch.nn as nn
 from torch.nn import Linear
 import torch.nn.functional as F
+from torch.nn.modules.lazy import LazyModuleMixin
+from torch.nn.parameter import UninitializedParameter
 
 from .FunctionalConvolution import *
 from .FunctionalConvolutionTranspose import *
@@ -18,7 +20,7 @@ from .utils import (
 )
 
 
-class LazyLayerNormLastDim(nn.Module):
+class LazyLayerNormLastDim(LazyModuleMixin, nn.Module):
     """
     Lazily initialize the layer norm to the last dimension of the input
     variable. Assumes dimension remains constant.
@@ -26,17 +28,18 @@ class LazyLayerNormLastDim(nn.Module):
 
     def __init__(self, bias=True):
         super().__init__()
-        self.weight = None
-        self.bias = bias
+        self.weight = UninitializedParameter()
+        self.bias = UninitializedParameter() if bias else None
 
-    def forward(self, input):
-        if self.weight is None:
-            ndim = input.shape[-1]
-            self.weight = nn.Parameter(torch.ones(ndim)).to(input.device)
-            self.bias = (
-                nn.Parameter(torch.zeros(ndim)).to(input.device) if self.bias else None
-            )
+    def initialize_parameters(self, input):
+        ndim = input.shape[-1]
+        with torch.no_grad():
+            for param, value in ((self.weight, 1.0), (self.bias, 0.0)):
+                if isinstance(param, UninitializedParameter):
+                    param.materialize((ndim,), device=input.device)
+                    param.fill_(value)
 
+    def forward(self, input):
         return F.layer_norm(input, self.weight.shape, self.weight, self.bias, 1e-5)
 
 
-- 
2.43.0


From cfbdf5a8e06f543295b36e7a2aefa00caf37b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:04 +0000
Subject: [PATCH 09/10] fix: accept non-contiguous inputs in the 1d piecewise
 expansions

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..d4dca5b 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From b1b641af615f7127c4b71bb6144d4701a5f38cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 10/10] fix: do not wrap node positions into the period when
 h-refining

---
 high_order_layers_torch/PolynomialLayers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 00a08a0..e3e05a6 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -266,9 +266,7 @@ class Piecewise(nn.Module):
             - tensor of segment indices
         """
 
-        if self.periodicity is not None:
-            x = make_periodic(x, self.periodicity)
-
+        # x are positions of nodes, not inputs, so periodicity does not apply
         # get the segment index
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
-- 
2.43.0


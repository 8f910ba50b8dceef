From dfd4fa1c59b2e58b5f70eb6c762b1d0a0cde35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 001/121] fix: recompute convolution indices whenever the image
 shape changes

The indexed convolution path cached its index matrix by the number of
elements per sample only, so that an input with the same number of
elements but a different height/width (depth) was convolved with stale
indices.
---
 src/aihwkit/nn/modules/conv.py        | 8 +++-----
 src/aihwkit/nn/modules/conv_mapped.py | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..973205d 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -128,9 +128,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
     def _recalculate_indexes(self, x_input: Tensor) -> None:
         """Calculate and set the indexes of the analog tile."""
 
-        self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
-            x_input, self.in_channels
-        )
+        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
+        self.input_size = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,8 +163,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            if self.input_size != x_input.shape[1:] or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..ba6f16a 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -194,7 +194,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,8 +234,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            if self.input_size != x_input.shape[1:] or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
         if self.analog_tile_count() == 1:
-- 
2.43.0


From 1d267b897ba7f9ae85299c63255523cdef123ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 002/121] fix: do not mask output gradients of a perfect
 forward pass

With is_perfect (or the IDEAL MVM type) no output bound is applied in the
forward pass, but gradients of outputs larger than out_bound were still
set to zero.
---
 src/aihwkit/simulator/tiles/rpucuda.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..9215190 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -16,6 +16,7 @@ from torch.autograd import no_grad
 
 from aihwkit.exceptions import CudaError
 from aihwkit.simulator.parameters.base import RPUConfigGeneric
+from aihwkit.simulator.parameters.enums import AnalogMVType
 from aihwkit.simulator.rpu_base import cuda, tiles
 from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 from aihwkit.exceptions import ArgumentError
@@ -120,8 +121,14 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         """Helper for getting the output bound to correct the
         gradients using the AnalogFunction.
         """
-        if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
-            return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
+        if not hasattr(self.rpu_config, "forward"):
+            return None
+        forward = self.rpu_config.forward
+        if forward.is_perfect or forward.mv_type == AnalogMVType.IDEAL:
+            # no output bound is applied
+            return None
+        if forward.out_bound > 0:
+            return forward.out_scale * forward.out_bound * 0.999
         return None
 
     @no_grad()
-- 
2.43.0


From f03330cc6357d8a101f22471b9d125f08001ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 003/121] fix: keep a positive bound failure when negative
 bound hits are not tested

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..be0a243 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,9 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        if (io.bm_test_negative_bound) {
+          bound_test_passed = false;
+        }
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From b28a1eb3664a4cdd918cd617f3cf36e7f1343c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 004/121] fix: do not quantize torch tile values with an
 unbounded range

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b05932e..4b03465 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -263,7 +263,7 @@ class AnalogMVM:
                 )
 
         # - Discretize
-        if res > 0:
+        if res > 0 and io_pars.out_bound > 0:
             out_values = UniformQuantize.apply(
                 out_values, res, io_pars.out_bound, io_pars.out_sto_round
             )
@@ -306,7 +306,7 @@ class AnalogMVM:
             scaled_input *= scale
 
         # - Discretize
-        if io_pars.inp_res > 0:
+        if io_pars.inp_res > 0 and io_pars.inp_bound > 0:
             scaled_input = UniformQuantize.apply(
                 scaled_input, res, io_pars.inp_bound, io_pars.inp_sto_round
             )
-- 
2.43.0


From ebfece20b178ccfd418fe9e7fe1d1f76dcdbe1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 005/121] fix: allocate the right shape when input and output
 layouts differ in transposition

---
 .../simulator/rpu_base_src/rpu_base_tiles.cpp      | 14 ++++----------
 .../simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 14 ++++----------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..c6dcff3 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -428,11 +428,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -498,11 +495,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 1b1a93f..3599226 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -181,11 +181,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -259,11 +256,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
-- 
2.43.0


From 227d0de7ef16399fa48b3891362cbcccb6518bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 006/121] fix: keep the zero-input shortcut of the torch tile
 differentiable

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index 4b03465..5142a4f 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -9,7 +9,7 @@
 from typing import Union, Any, Optional
 from numbers import Number
 
-from torch import Tensor, zeros, randn_like, clamp, bmm
+from torch import Tensor, randn_like, clamp, bmm
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
@@ -76,7 +76,6 @@ class AnalogMVM:
             input_=input_, nm_type=io_pars.noise_management, io_pars=io_pars
         )
 
-        out_size = input_.shape[:-1] + (weight.shape[int(trans)],)
         n_management = io_pars.noise_management != NoiseManagementType.NONE
         b_management = io_pars.bound_management != BoundManagementType.NONE
         if (
@@ -84,8 +83,8 @@ class AnalogMVM:
             and isinstance(nm_scale_values, Tensor)
             and (nm_scale_values == 0.0).all()
         ):
-            # - Shortcut, output would be all zeros
-            return zeros(size=out_size, device=input_.device, dtype=input_.dtype)
+            # - Shortcut, output would be all zeros (but still differentiable)
+            return cls._matmul(weight, input_ - input_.detach(), trans)
 
         if isinstance(nm_scale_values, Tensor):
             # set zeros to 1 to avoid divide-by-zero errors
-- 
2.43.0


From be7e1eef907693ad6b94ec993115852ac3f30761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 007/121] fix: keep the input range factor in the weight update
 of a tile with input range

---
 src/aihwkit/simulator/tiles/periphery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..0247ddf 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1196,6 +1196,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         # pylint: disable=unused-argument
         if self.input_range is not None:
             x_input = self.apply_input_range(x_input, False) / self.input_range
+            d_input = d_input * self.input_range
 
         if self.mapping_scales is not None:
             tensor_view = self.get_tensor_view(d_input.dim(), d_dim)
-- 
2.43.0


From 577935443248abf347f42e04251534d62bbd2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 008/121] fix: copy the stored output gradient, as its storage
 may be shared by autograd

---
 src/aihwkit/simulator/tiles/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..f8aa77e 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -105,9 +105,10 @@ class AnalogFunction(Function):
             analog_ctx.analog_input.append(input_)
 
             if runtime.offload_gradient:
-                store_gradients = grad_output.cpu()
+                store_gradients = grad_output.to("cpu", copy=True)
             else:
-                store_gradients = grad_output
+                # copy, as autograd might share (and later modify) the storage
+                store_gradients = grad_output.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
 
         ctx.saved_analog_tensors = []
-- 
2.43.0


From d9ec4973b67a5825d4416f2280033e6918a1e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 009/121] fix: write the delta weights also when the tile
 learning rate is zero

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp      | 2 +-
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index c6dcff3..c9388f6 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -538,7 +538,7 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            if (lr == (T_RPU)0.0 && self.getDeltaWeights() == nullptr) {
               return;
             }
 
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 3599226..6c30e1e 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -307,7 +307,7 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            if (lr == (T_RPU)0.0 && self.getDeltaWeights() == nullptr) {
               return;
             }
 
-- 
2.43.0


From 15147d2a632bbde9c96936cc7777527ece5a1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 010/121] fix: program weights from an existing reference or
 with given inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 0247ddf..bd1bcad 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
-- 
2.43.0


From 02e1cde7d6c4e2ee03dbcb5c795f017491bc6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 011/121] fix: read weights of a tile with analog bias using
 given inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index bd1bcad..184297d 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -416,7 +416,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.size(0), 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
-- 
2.43.0


From 2a03824f647fa7a029e96f738a4048cf69691898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 012/121] fix: set the mapping scales from a float when scales
 already exist

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 184297d..7c13b2b 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 37239e2360a5de1f408f2281ed7f8d08dda81537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 013/121] fix: avoid NaN step of the power step reference
 device beyond its bounds

---
 src/rpucuda/rpu_powstep_reference_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.cpp b/src/rpucuda/rpu_powstep_reference_device.cpp
index 2d5fec6..da0600a 100644
--- a/src/rpucuda/rpu_powstep_reference_device.cpp
+++ b/src/rpucuda/rpu_powstep_reference_device.cpp
@@ -134,10 +134,10 @@ inline void update_once_reference(
   w += ref; // first add
 
   if (sign > 0) {
-    w -= scale_down * (T)powf((w - min_bound) / range, gamma_down) *
+    w -= scale_down * (T)powf(MAX((w - min_bound) / range, (T)0.0), gamma_down) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   } else {
-    w += scale_up * (T)powf((max_bound - w) / range, gamma_up) *
+    w += scale_up * (T)powf(MAX((max_bound - w) / range, (T)0.0), gamma_up) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   }
   w = MAX(w, min_bound);
-- 
2.43.0


From 161b0a3f6f551506d14fc5588fc91eb4abee6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 014/121] fix: use the update resolution when given as number
 of steps

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From 279a90877d94f2e836650f92c4c7a7db7e349d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 015/121] fix: average the up and down step in the weight
 granularity of the exponential step device

---
 src/rpucuda/rpu_expstep_device.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_expstep_device.h b/src/rpucuda/rpu_expstep_device.h
index 623f374..1f35bc6 100644
--- a/src/rpucuda/rpu_expstep_device.h
+++ b/src/rpucuda/rpu_expstep_device.h
@@ -50,7 +50,7 @@ BUILD_PULSED_DEVICE_META_PARAMETER(
     T z = (T)2.0 * w / (this->w_max - this->w_min) * es_a + es_b;
     T dw_down = scale_down * MAX((T)1.0 - (T)es_A_down * (T)expf((es_gamma_down * (-z))), (T)0.0);
     T dw_up = scale_up * MAX((T)1.0 - (T)es_A_up * (T)expf((es_gamma_up * z)), (T)0.0);
-    T weight_granularity = MAX((dw_down + dw_down) / (T)2.0, (T)0.0);
+    T weight_granularity = MAX((dw_up + dw_down) / (T)2.0, (T)0.0);
     return weight_granularity > (T)0.0 ? weight_granularity : this->dw_min;
     ,
     /*add */
-- 
2.43.0


From 5698afa2a635ed25c047e3c498dbffd7f2bfb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 016/121] fix: return no learning rate for tiles that do not
 have one

---
 src/aihwkit/simulator/tiles/periphery.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7c13b2b..11460af 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1407,10 +1407,13 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if learning_rate is not None:
             self.tile.set_learning_rate(learning_rate * self.mapping_lr_scale)
 
-    def get_learning_rate(self) -> float:
+    def get_learning_rate(self) -> Optional[float]:
         """Return the tile learning rate.
 
         Returns:
-            float: the tile learning rate.
+            float: the tile learning rate, or None if the tile does not have one.
         """
-        return self.tile.get_learning_rate() / self.mapping_lr_scale
+        learning_rate = self.tile.get_learning_rate()
+        if learning_rate is None:
+            return None
+        return learning_rate / self.mapping_lr_scale
-- 
2.43.0


From 5d32b0275636b8668c560b2d45f4434a1bb6ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 017/121] fix: restore the learning rate compensation of the
 mapping scales from the state dict

---
 src/aihwkit/simulator/tiles/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..bd1df0a 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -51,6 +51,7 @@ class AnalogTileStateNames:
     CONTEXT = "analog_ctx"
     OUT_SCALING = "out_scaling_alpha"
     MAPPING_SCALES = "mapping_scales"
+    MAPPING_LR_SCALE = "mapping_lr_scale"
     RPU_CONFIG = "rpu_config"
     ANALOG_STATE_PREFIX = "analog_tile_state_"
     ANALOG_STATE_NAME = "analog_tile_state"
-- 
2.43.0


From 750d23d704483239b15dee244b8b327b428b1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 018/121] fix: load the state dict of a tile whose mapping
 scales were created by remapping

---
 src/aihwkit/simulator/tiles/module.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..ccf71be 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -412,6 +412,17 @@ class TileModule(Module, TileModuleBase):
         if shared_weights_key in state_dict and isinstance(state_dict[shared_weights_key], Tensor):
             state_dict.pop(shared_weights_key, None)
 
+        # The mapping scales might only exist (or have a different shape) after
+        # the weights have been (re-)mapped.
+        scales = state_dict.get(prefix + AnalogTileStateNames.MAPPING_SCALES, None)
+        current = getattr(analog_tile, AnalogTileStateNames.MAPPING_SCALES, None)
+        if isinstance(scales, Tensor) and (current is None or current.shape != scales.shape):
+            setattr(
+                analog_tile,
+                AnalogTileStateNames.MAPPING_SCALES,
+                scales.detach().clone().to(analog_tile.device),
+            )
+
         # The analog state restores analog_ctx explicitly. Letting PyTorch
         # copy the registered Parameter afterwards is redundant and would
         # look like a direct user write to the logical read-only context.
-- 
2.43.0


From 01fe7d4112dd258b2ed747cd3638a59700a4a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 019/121] fix: load the state dict of a tile with drift
 compensation

---
 src/aihwkit/simulator/tiles/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..660fe09 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -263,7 +263,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             if isinstance(self, Module):
                 # somehow legacy is incompatible with torch buffers
                 self.__dict__.pop("alpha", None)
-            self.alpha = alpha
+            # keep the shape of the buffer (for loading the state dict)
+            self.alpha = alpha.reshape(1) if alpha.dim() == 0 else alpha
 
     def post_forward(
         self, x_output: Tensor, dim: int, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From 920c0d3109629fdb0504560e4574618a5613cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 020/121] fix: transpose the drift read-out tensor of tiles
 with transposed input

---
 src/aihwkit/simulator/tiles/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 660fe09..2aad6c6 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -129,7 +129,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
-- 
2.43.0


From 54fc71376dadde6a50f39ad6ca1ed4de9d1a4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 021/121] fix: set the hidden weights chi of mixed precision
 devices with the hidden parameters

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..461081e 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,18 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
   rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[names.size() - 1]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From c2ca106de87b6435f65f875615b4d4919cc3959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 022/121] fix: keep the given persistent weights when setting
 the hidden parameters

---
 src/rpucuda/rpu_pulsed_device.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..0a671be 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,7 +334,16 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  if (getPar().usesPersistentWeight()) {
+    // onSetWeights would overwrite the given persistent weights
+    std::vector<T> w_persistent(w_persistent_[0], w_persistent_[0] + this->size_);
+    this->onSetWeights(out_weights);
+    for (int i = 0; i < this->size_; ++i) {
+      w_persistent_[0][i] = MAX(MIN(w_persistent[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+    }
+  } else {
+    this->onSetWeights(out_weights);
+  }
 };
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
-- 
2.43.0


From aa898183a79d67f9adda2f42ec57a9c5f213ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 023/121] fix: restore the hidden weights of compound devices
 from the state dict

---
 src/aihwkit/simulator/tiles/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index bd1df0a..fd87494 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -761,6 +761,8 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            # setting the weights overwrites the hidden weights (if any)
+            self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
-- 
2.43.0


From aae4bdc2c0243979dd9135444ab3d6e334b9404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 024/121] fix: read the chopper state of the matching weight
 element when reducing the weights

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..bd4065e 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -543,14 +543,18 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   // they differ (i.e. c_d[i] * c_x[j] expressed as an XOR of the flags).
 
   T *A = *this->weights_vec_[0];
-  int size = this->x_size_ * this->d_size_;
-
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
-  for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
-    weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
+
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
+  // Layout: W[d_idx * x_size + x_idx] (row-major, x as inner dimension)
+  int idx = 0;
+  for (int i = 0; i < this->d_size_; ++i) {
+    for (int j = 0; j < this->x_size_; ++j) {
+      T chop = (x_chopper[j] != d_chopper[i]) ? (T)-1.0 : (T)1.0;
+      weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
+      idx++;
+    }
   }
 }
 
-- 
2.43.0


From e10a7e84ea56b0f20caf78a49ae7a5782a65ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 025/121] fix: size the transfer vector of the buffered
 transfer device for row transfers

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..cc9cee1 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From 9898f57c02b14cffc5f31823353262e73cf16215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 026/121] fix: reset only the column just read when
 transferring several columns at once

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..88f64c9 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,7 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From d4e5ae9281c01ccbaf30a05504cd863ab56637f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 027/121] fix: keep the weight gradient scaling of the torch
 tile when copying or loading it

---
 .../simulator/tiles/inference_torch.py        | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..5a0f78e 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -112,6 +112,7 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         self._tile_input = None  # type: Tensor
         self._x_input_grad = None  # type: Tensor
         self._backward_hook_handle = None  # type: BackwardHook
+        self._register_weight_grad_hook()
 
     def _create_simulator_tile(  # type: ignore
         self, x_size: int, d_size: int, rpu_config: "TorchInferenceRPUConfig"
@@ -160,6 +161,39 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
             return False
         return True
 
+    def _scale_weight_grad(self, grad: Tensor) -> Tensor:
+        """Rescale the weight gradient with the current mapping scales."""
+        scales = self.get_mapping_scales()
+        if scales is None:
+            return grad
+        return grad / scales.to(grad.device).view(-1, 1) ** 2
+
+    def _register_weight_grad_hook(self) -> None:
+        """Register the hook that rescales the weight gradient."""
+        # - Remove old hook
+        if self._backward_hook_handle is not None:
+            self._backward_hook_handle.remove()
+            self._backward_hook_handle = None
+
+        if self.tile.weight.requires_grad:
+            self._backward_hook_handle = self.tile.register_weight_hook(self._scale_weight_grad)
+
+    def __getstate__(self) -> Dict:
+        """Get the state for pickling without the hook handle."""
+        state = super().__getstate__()
+        state["_backward_hook_handle"] = None
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state after unpickling.
+
+        Hooks are not copied with the weights, thus register again.
+        """
+        handle = self.__dict__.get("_backward_hook_handle")
+        super().__setstate__(state)
+        self._backward_hook_handle = handle
+        self._register_weight_grad_hook()
+
     def set_scales(self, scales: Tensor) -> None:
         """Set all scales with a new scale.
 
@@ -170,16 +204,7 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         super().set_scales(scales)
-
-        # - Remove old hook
-        if self._backward_hook_handle is not None:
-            self._backward_hook_handle.remove()
-
-        def hook(grad: Tensor) -> Tensor:
-            return grad / scales.to(grad.device).view(-1, 1) ** 2
-
-        if self.tile.weight.requires_grad:
-            self._backward_hook_handle = self.tile.register_weight_hook(hook)
+        self._register_weight_grad_hook()
 
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From aa8a667f629834465813668c77bfcfe7a416b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 028/121] fix: keep the analog context bound to the torch tile
 weights when clipping or remapping

---
 src/aihwkit/simulator/tiles/torch_tile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..ef6a4b7 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, randn
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,11 +128,11 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -150,12 +150,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From aa709351ef0aea90254f4d9c50b5e5a7c10c7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 029/121] fix: keep the given persistent weights also for
 devices with additional parameters

---
 src/rpucuda/rpu_pulsed_device.cpp | 25 +++++++++++++++----------
 src/rpucuda/rpu_pulsed_device.h   |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 0a671be..68c7b6c 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,18 +334,23 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  if (getPar().usesPersistentWeight()) {
-    // onSetWeights would overwrite the given persistent weights
-    std::vector<T> w_persistent(w_persistent_[0], w_persistent_[0] + this->size_);
-    this->onSetWeights(out_weights);
-    for (int i = 0; i < this->size_; ++i) {
-      w_persistent_[0][i] = MAX(MIN(w_persistent[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
-    }
-  } else {
-    this->onSetWeights(out_weights);
-  }
+  this->onSetDeviceParameter(out_weights);
 };
 
+template <typename T> void PulsedRPUDevice<T>::onSetDeviceParameter(T **weights) {
+
+  if (!getPar().usesPersistentWeight()) {
+    this->onSetWeights(weights);
+    return;
+  }
+  // onSetWeights would overwrite the given persistent weights
+  std::vector<T> w_persistent(w_persistent_[0], w_persistent_[0] + this->size_);
+  this->onSetWeights(weights);
+  for (int i = 0; i < this->size_; ++i) {
+    w_persistent_[0][i] = MAX(MIN(w_persistent[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+  }
+}
+
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
   return getPar().usesPersistentWeight() ? 1 : 0;
 }
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..910f8c0 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -303,6 +303,7 @@ protected:
 
   RealWorldRNG<T> write_noise_rng_{0};
   virtual void applyUpdateWriteNoise(T **weights);
+  void onSetDeviceParameter(T **weights);
 
 private:
   void freeContainers();
@@ -412,7 +413,7 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    this->onSetDeviceParameter(out_weights);                                                       \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From f38732ccd75676227ce09db547da4b98488bd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 030/121] fix: index the quantized error vector of the mixed
 precision device correctly

---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From 015e3136c4f613fff53082f922a078cb4338950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 031/121] fix: do not re-draw the write noise when setting the
 hidden parameters

---
 src/rpucuda/rpu_pulsed_device.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 68c7b6c..d4843e0 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -343,11 +343,15 @@ template <typename T> void PulsedRPUDevice<T>::onSetDeviceParameter(T **weights)
     this->onSetWeights(weights);
     return;
   }
-  // onSetWeights would overwrite the given persistent weights
-  std::vector<T> w_persistent(w_persistent_[0], w_persistent_[0] + this->size_);
-  this->onSetWeights(weights);
+  // Do not call onSetWeights as it would overwrite the given persistent weights
+  // (and would re-draw the write noise of the given weights)
+  T *w = weights[0];
   for (int i = 0; i < this->size_; ++i) {
-    w_persistent_[0][i] = MAX(MIN(w_persistent[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+    T w_clipped = MAX(MIN(w_persistent_[0][i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+    if (w_clipped != w_persistent_[0][i]) {
+      w_persistent_[0][i] = w_clipped;
+      w[i] = MAX(MIN(w[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+    }
   }
 }
 
-- 
2.43.0


From cb2d0d4e27428bcdfadab53ea569197c074d10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 032/121] fix: drift the conductance (not its negative offset)
 when the weight has an offset

---
 src/rpucuda/cuda/weight_drifter_cuda.cu | 2 +-
 src/rpucuda/weight_drifter.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/cuda/weight_drifter_cuda.cu b/src/rpucuda/cuda/weight_drifter_cuda.cu
index 20978ea..7b0ddaf 100644
--- a/src/rpucuda/cuda/weight_drifter_cuda.cu
+++ b/src/rpucuda/cuda/weight_drifter_cuda.cu
@@ -220,7 +220,7 @@ template <typename T> void WeightDrifterCuda<T>::apply(T *weights, T time_since_
   auto s = context_->getStream();
 
   current_t_ += time_since_last_call / par_.t0;
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < par_.reset_tol) {
     a = (T)0.0;
   }
diff --git a/src/rpucuda/weight_drifter.cpp b/src/rpucuda/weight_drifter.cpp
index 258721c..09756a0 100644
--- a/src/rpucuda/weight_drifter.cpp
+++ b/src/rpucuda/weight_drifter.cpp
@@ -115,7 +115,7 @@ void WeightDrifter<T>::apply(T *weights, T time_since_last_call, RNG<T> &rng) {
   current_t_ += time_since_last_call / par_.t0;
   T reset_tol = par_.reset_tol;
   bool simple = par_.isSimpleDrift();
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < reset_tol) {
     a = (T)0.0;
   }
-- 
2.43.0


From 4a0fcdbd86d4efaab503bf54583c1e37998ccb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 033/121] fix: remap all-zero weights of the torch tile without
 dividing by zero

---
 src/aihwkit/simulator/tiles/torch_tile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index ef6a4b7..d01e7ce 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, randn
+from torch import Tensor, zeros, randn, where
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,10 +128,13 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            if new_scale <= 0:
+                return scales
             self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            new_scale = where(new_scale > 0, new_scale, scales.view(-1))
             self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
-- 
2.43.0


From a2ab343088a88e47484fba260ddd5299a5bfa9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 034/121] fix: do not clip torch tile weights to zero or NaN if
 their std is zero or undefined

---
 src/aihwkit/simulator/tiles/torch_tile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index d01e7ce..b24bf87 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -158,7 +158,9 @@ class TorchSimulatorTile(SimulatorTile, Module):
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data.clamp_(-alpha, alpha)
+            if alpha > 0:
+                # std might be zero or undefined
+                self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From eeb1fa977cab287231298d8d3c8d54b1afd5eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 035/121] fix: do not set all torch tile weights to the (unset)
 negative clip value

---
 src/aihwkit/simulator/tiles/torch_tile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index b24bf87..541999a 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -153,7 +153,8 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
+            if clip.fixed_value > 0:
+                self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
-- 
2.43.0


From 803ab84fde545e5f1b8f2c4967c9e28a8354957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 036/121] fix: keep devices with bounds outside the clip range
 within their bounds when clipping

---
 src/rpucuda/rpu_pulsed_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index d4843e0..e78f118 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -477,8 +477,10 @@ template <typename T> void PulsedRPUDevice<T>::clipWeights(T **weights, T clip)
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < this->size_; ++i) {
-      w[i] = MIN(w[i], MIN(max_bound[i], clip));
-      w[i] = MAX(w[i], MAX(min_bound[i], -clip));
+      w[i] = MIN(MAX(w[i], -clip), clip);
+      // last, since bounds of (corrupt) devices might be outside of the clip range
+      w[i] = MIN(w[i], max_bound[i]);
+      w[i] = MAX(w[i], min_bound[i]);
     }
   }
   applyUpdateWriteNoise(weights);
-- 
2.43.0


From 53a10d336fa7bc77ad258b473dc7786a6b13b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 037/121] fix: keep digital bias gradients from sharing storage
 with the output gradient

---
 src/aihwkit/nn/modules/conv_mapped.py          | 4 ++--
 src/aihwkit/simulator/tiles/analog.py          | 2 +-
 src/aihwkit/simulator/tiles/array.py           | 5 +++--
 src/aihwkit/simulator/tiles/custom.py          | 2 +-
 src/aihwkit/simulator/tiles/floating_point.py  | 2 +-
 src/aihwkit/simulator/tiles/inference.py       | 2 +-
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 3 ++-
 src/aihwkit/simulator/tiles/transfer.py        | 2 +-
 9 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index ba6f16a..8a1ce7a 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -244,7 +244,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
                 output = self._single_unfold(analog_tile, x_input)
 
             if self.bias is not None:
-                return output + self.bias.view(*self.tensor_view)
+                return output + self.bias.view(*self.tensor_view) * 1.0
             return output
 
         # Mapped version.
@@ -268,7 +268,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         # Add the bias (conditionally) to the final result.
         if self.bias is not None:
-            return result + self.bias.view(*self.tensor_view)
+            return result + self.bias.view(*self.tensor_view) * 1.0
         return result
 
     @no_grad()
diff --git a/src/aihwkit/simulator/tiles/analog.py b/src/aihwkit/simulator/tiles/analog.py
index 5e4d642..3ca0f19 100644
--- a/src/aihwkit/simulator/tiles/analog.py
+++ b/src/aihwkit/simulator/tiles/analog.py
@@ -225,7 +225,7 @@ class AnalogTile(TileModule, TileWithPeriphery, RPUCudaSimulatorTileWrapper):
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
 
 
diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..cb8600b 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -178,7 +178,8 @@ class TileModuleArray(Module, TileModuleBase):
         if self.bias is not None:
             if tensor_view is None:
                 tensor_view = analog_tile.get_tensor_view(result.dim())
-            return result + self.bias.view(*tensor_view)
+            # multiplied, so that the bias gradient does not share storage with the output gradient
+            return result + self.bias.view(*tensor_view) * 1.0
         return result
 
     def _apply_to_tiles(self, method_name: str, *args: Any, **kwargs: Any) -> List[List[Any]]:
@@ -285,7 +286,7 @@ class QuantizedTileModuleArray(TileModuleArray):
             if tensor_view is None:
                 tensor_view = analog_tile.get_tensor_view(result.dim())
             if self.bias_quantizer is None:
-                result += self.bias.view(*tensor_view)
+                result += self.bias.view(*tensor_view) * 1.0
             else:
                 # In the case of evaluation with uninitialized quantizer, take care of
                 # estimating the ranges first and then fixing them
diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..d947fe5 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -297,7 +297,7 @@ class CustomTile(TileModule, TileWithPeriphery, SimulatorTileWrapper):
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
 
     def post_update_step(self) -> None:
diff --git a/src/aihwkit/simulator/tiles/floating_point.py b/src/aihwkit/simulator/tiles/floating_point.py
index 40333dc..1842a3f 100644
--- a/src/aihwkit/simulator/tiles/floating_point.py
+++ b/src/aihwkit/simulator/tiles/floating_point.py
@@ -143,5 +143,5 @@ class FloatingPointTile(TileModule, TileWithPeriphery, RPUCudaSimulatorTileWrapp
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 2aad6c6..08b9886 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -430,5 +430,5 @@ class InferenceTile(
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 5a0f78e..fbdbfd1 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -252,7 +252,7 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
 
     @no_grad()
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 11460af..124bfc8 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -999,7 +999,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             tensor_view = self.get_tensor_view(output.dim())
 
         if self.bias_quantizer is None:
-            return output + self.bias.view(*tensor_view)
+            # multiplied, so that the bias gradient does not share storage with the output gradient
+            return output + self.bias.view(*tensor_view) * 1.0
 
         if not is_test:
             periph_quant_params = self.rpu_config.pre_post.periph_quant  # type: ignore
diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..c626d08 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -604,7 +604,7 @@ class TorchTransferTile(TileModule, TileWithPeriphery, SimulatorTileWrapper):
         out = self.apply_out_scaling(out, tensor_view)
 
         if self.digital_bias:
-            return out + self.bias.view(*tensor_view)
+            return out + self.bias.view(*tensor_view) * 1.0
         return out
 
     @no_grad()
-- 
2.43.0


From 1fefb2e1bdd7fdd551cde3f19758325bfa5f8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 038/121] fix: keep repeatedly used modules when converting a
 Sequential

---
 src/aihwkit/nn/modules/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..74935b9 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,14 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        # not using named_children, as it omits repeated modules
+        return cls(OrderedDict(module._modules.items()))
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        # not using named_children, as it omits repeated modules
+        return Sequential(OrderedDict(module._modules.items()))
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From 43cdb5e23c5e5f74b891979f16d62a014159f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 039/121] fix: distinguish modules of equal class name when
 wrapping them as analog

---
 src/aihwkit/nn/modules/container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 74935b9..7f18549 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -102,7 +102,7 @@ class AnalogWrapper(AnalogContainerBase):
          model: model to wrap with the analog wrapper.
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Type, Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, module: Optional[Module] = None, **__: Any) -> "AnalogWrapper":
@@ -116,10 +116,10 @@ class AnalogWrapper(AnalogContainerBase):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
         # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
+        if module_cls not in cls.SUBCLASSES:
+            cls.SUBCLASSES[module_cls] = new_class(subclass_name, (cls, module_cls), {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[module_cls])
 
     def __init__(self, module: Module):
         self.__dict__.update(module.__dict__)
-- 
2.43.0


From b849f2a6afeab32e886a69b7bdcd75e14b156c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 040/121] fix: keep the training mode of layers when converting

---
 src/aihwkit/nn/conversion.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..f30f5dc 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -77,6 +77,15 @@ def specific_rpu_config_id(
     return rpu_config
 
 
+def _copy_training_mode(converted: Module, original: Module) -> Module:
+    """Set the training mode of a newly created module as in the original."""
+    originals = set(original.modules())
+    for mod in converted.modules():
+        if mod not in originals:
+            mod.training = original.training
+    return converted
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -167,11 +176,12 @@ def convert_to_analog(
     if module.__class__ in conversion_map and module_name not in exclude_modules:
         if verbose:
             print(f"Converted '{module_name}' to '{conversion_map[module.__class__].__name__}'.")
-        module = conversion_map[module.__class__].from_digital(
+        analog = conversion_map[module.__class__].from_digital(
             module,
             specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
             tile_module_class,
         )
+        module = _copy_training_mode(analog, module)
 
     # Convert children.
     convert_dic = {}
@@ -201,9 +211,10 @@ def convert_to_analog(
             continue
         if verbose:
             print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
-        convert_dic[name] = conversion_map[mod.__class__].from_digital(
+        analog = conversion_map[mod.__class__].from_digital(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
+        convert_dic[name] = _copy_training_mode(analog, mod)
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
@@ -273,7 +284,7 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        module = module.__class__.to_digital(module)
+        module = _copy_training_mode(module.__class__.to_digital(module), module)
 
     # Convert children.
     convert_dic = {}
@@ -293,7 +304,8 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        convert_dic[name] = mod.to_digital(mod)  # type: ignore
+        digital = mod.to_digital(mod)  # type: ignore
+        convert_dic[name] = _copy_training_mode(digital, mod)
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
-- 
2.43.0


From e6bbc05ba7c918aa0a95e784e98f0943afd67f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 041/121] fix: convert all uses of a repeatedly used child
 module

---
 src/aihwkit/nn/conversion.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f30f5dc..d7f3dfd 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -86,6 +86,14 @@ def _copy_training_mode(converted: Module, original: Module) -> Module:
     return converted
 
 
+def _replace_children(module: Module, convert_dic: Dict[str, Module]) -> None:
+    """Replace the children, including repeated uses of the same child."""
+    children = module._modules  # pylint: disable=protected-access
+    new_modules = {id(children[name]): new_mod for name, new_mod in convert_dic.items()}
+    for name, child in children.items():
+        children[name] = new_modules.get(id(child), child)
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -216,8 +224,7 @@ def convert_to_analog(
         )
         convert_dic[name] = _copy_training_mode(analog, mod)
 
-    for name, new_mod in convert_dic.items():
-        module._modules[name] = new_mod  # pylint: disable=protected-access
+    _replace_children(module, convert_dic)
 
     # in case of root, make sure it is wrapped as analog
     if ensure_analog_root and not module_name and not isinstance(module, AnalogLayerBase):
@@ -307,7 +314,6 @@ def convert_to_digital(
         digital = mod.to_digital(mod)  # type: ignore
         convert_dic[name] = _copy_training_mode(digital, mod)
 
-    for name, new_mod in convert_dic.items():
-        module._modules[name] = new_mod  # pylint: disable=protected-access
+    _replace_children(module, convert_dic)
 
     return module
-- 
2.43.0


From c16eb8c4a546422ca6d5f3a30168260ca9686456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 042/121] fix: keep group options of analog parameters when
 regrouping

---
 src/aihwkit/optim/analog_optimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..8abd7d9 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -37,10 +37,11 @@ class AnalogOptimizerMixin:
             rm_lst = []
             for param in group["params"]:
                 if isinstance(param, AnalogContext):
-                    param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
-                    )
-                    analog_param_groups.append({"params": [param]})
+                    # Keep the options (e.g. the learning rate) of the original group.
+                    options = {key: val for key, val in group.items() if key != "params"}
+                    if options.get("lr") is not None:
+                        param.analog_tile.set_learning_rate(options["lr"])
+                    analog_param_groups.append({**options, "params": [param]})
                     rm_lst.append(id(param))
 
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
-- 
2.43.0


From a1da12650380de079dbb7de432dca9f24dd669be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 043/121] fix: distinguish optimizers of equal class name when
 wrapping them as analog

---
 src/aihwkit/optim/analog_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 8abd7d9..21b9829 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -194,7 +194,7 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         >>> optimizer = AnalogOptimizer(SGD, model.parameters(), lr=0.02)
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Type, Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, optimizer_cls: Type, *_: Any, **__: Any) -> "AnalogOptimizer":
@@ -203,10 +203,10 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
         # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
+        if optimizer_cls not in cls.SUBCLASSES:
+            cls.SUBCLASSES[optimizer_cls] = new_class(subclass_name, (cls, optimizer_cls), {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[optimizer_cls])
 
     def __init__(
         self, optimizer_cls: Type, *args: Any, **kwargs: Any  # pylint: disable=unused-argument
-- 
2.43.0


From 5f2b15a177d33637ebdd94dabe8721e50df0bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 044/121] fix: discard stored analog gradients in zero_grad of
 analog optimizers

---
 src/aihwkit/optim/analog_optimizer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 21b9829..2c79d8f 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -57,6 +57,23 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    def zero_grad(self, *args: Any, **kwargs: Any) -> None:
+        """Clear the gradients of all parameters.
+
+        Also discards the inputs and gradients of the analog layers that are
+        stored for the next in-memory update.
+
+        Args:
+            args: additional positional arguments for the torch optimizer
+            kwargs: additional keyword arguments for the torch optimizer
+        """
+        super().zero_grad(*args, **kwargs)  # type: ignore[misc]
+
+        for group in self.param_groups:
+            for param in group["params"]:
+                if isinstance(param, AnalogContext):
+                    param.reset()
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
-- 
2.43.0


From 158fae3a645e90a8021dd284cdae3614cb6d1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 045/121] fix: use the given g_max reference of the programming
 noise coefficients

---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 src/aihwkit/inference/noise/reram.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..78578c3 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
-- 
2.43.0


From bb5feb286aa9a857391e0c6d4ad10090c05bcb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 046/121] fix: scale the default ReRAM noise coefficients with
 their g_max reference

---
 src/aihwkit/inference/noise/reram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 78578c3..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -92,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From c012fc82f3580e1f84a9ade1d1c6923c9a604bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 047/121] fix: apply_noise directly after programming
 (t_inference zero)

---
 src/aihwkit/inference/noise/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..0e0b3ef 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -63,9 +63,8 @@ class BaseNoiseModel:
             g_prog = self.apply_programming_noise_to_conductance(g_target)
             if t_inference > 0:
                 nu_drift = self.generate_drift_coefficients(g_target)
-                noisy_conductances.append(
-                    self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
-                )
+                g_prog = self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
+            noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From b73956acedafdc46f4a66319504920a8774fac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 048/121] fix: single device conductances of constant weights
 are not NaN

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 144a594183ee20681d133632ba815e95bf78e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 049/121] fix: rectify drift coefficients of the state
 independent noise model as documented

---
 src/aihwkit/inference/noise/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/custom.py b/src/aihwkit/inference/noise/custom.py
index 9127ba6..a24e3c4 100644
--- a/src/aihwkit/inference/noise/custom.py
+++ b/src/aihwkit/inference/noise/custom.py
@@ -162,7 +162,7 @@ class StateIndependentNoiseModel(BaseNoiseModel):  # pylint: disable=too-many-in
 
         mu_drift = self.drift_nu_mean
         sig_drift = self.drift_nu_std
-        nu_drift = torch_abs(mu_drift + sig_drift * randn_like(g_target)).clamp(min=0.0)
+        nu_drift = (mu_drift + sig_drift * randn_like(g_target)).clamp(min=0.0)
         return nu_drift * self.drift_scale
 
     @no_grad()
-- 
2.43.0


From e8b95f935358a31200c1db3e2eb6a5de00bd13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 050/121] fix: apply the per-column drift compensation along
 the output dimension

---
 src/aihwkit/simulator/tiles/inference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 08b9886..6f04736 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -143,8 +143,6 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 input_ = input_.T
 
             output = (input_ @ self.reference_combined_weights.T)  # type: ignore
-            if self.out_trans:
-                output = output.T
 
         else:
             output = self.tile.forward(
@@ -155,6 +153,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 True,
                 self.non_blocking,
             )
+            if self.out_trans:
+                output = output.T
 
         return output
 
@@ -279,6 +279,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             # only do drift compensation in eval mode
+            if self.alpha.numel() > 1:
+                return x_output * self.alpha.view(self.get_tensor_view(x_output.dim(), dim))
             return x_output * self.alpha
         return x_output
 
-- 
2.43.0


From 5e0ed79faf33381ec9390400b4947ed7717c4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 051/121] fix: discard programmed weights and drift
 compensation when setting new weights

---
 src/aihwkit/simulator/tiles/inference.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 6f04736..7fbeed7 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -101,6 +101,26 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             )
             self.set_mapping_scales(mapping_scales)
 
+    @no_grad()
+    def set_weights(self, weight: Tensor, bias: Optional[Tensor] = None, **kwargs: Any) -> None:
+        """Set the tile weights (and biases).
+
+        See :meth:`~aihwkit.simulator.tiles.periphery.TileWithPeriphery.set_weights`.
+
+        Note:
+            Previously programmed weights and their drift compensation are discarded.
+
+        Args:
+            weight: ``[out_size, in_size]`` weight matrix.
+            bias: ``[out_size]`` bias vector.
+            kwargs: additional arguments, see above.
+        """
+        self.programmed_weights = None
+        self.drift_noise_parameters = None
+        self.drift_baseline = None
+        self.alpha = ones((1,), dtype=self.get_dtype(), device=self.device)
+        super().set_weights(weight, bias, **kwargs)
+
     @no_grad()
     def _forward_drift_readout_tensor(
         self, reset_if: bool = False, exact_reference: bool = False
-- 
2.43.0


From 86978eda54530d2f05590c097038199be132062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 052/121] fix: load the state of a model with per-column drift
 compensation

---
 src/aihwkit/simulator/tiles/module.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index ccf71be..1495bc3 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -423,6 +423,13 @@ class TileModule(Module, TileModuleBase):
                 scales.detach().clone().to(analog_tile.device),
             )
 
+        # The drift compensation might be given for each column.
+        alpha = state_dict.get(prefix + "alpha", None)
+        current = getattr(analog_tile, "alpha", None)
+        if isinstance(alpha, Tensor) and isinstance(current, Tensor):
+            if current.shape != alpha.shape:
+                analog_tile.alpha = alpha.detach().clone().to(analog_tile.device)
+
         # The analog state restores analog_ctx explicitly. Letting PyTorch
         # copy the registered Parameter afterwards is redundant and would
         # look like a direct user write to the logical read-only context.
-- 
2.43.0


From e9deec27f330c37dde1a20938d24a84d45319365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 053/121] fix: regress the fusion back-conversion through the
 origin

---
 src/aihwkit/inference/converter/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/fusion.py b/src/aihwkit/inference/converter/fusion.py
index b85cc10..0b5c776 100644
--- a/src/aihwkit/inference/converter/fusion.py
+++ b/src/aihwkit/inference/converter/fusion.py
@@ -68,7 +68,7 @@ class FusionConductanceConverter(BaseConductanceConverter):
 
         weights = conductances[0] * sign(params["original_weights"])
         for col in range(weights.shape[0]):
-            reg = LinearRegression().fit(
+            reg = LinearRegression(fit_intercept=False).fit(
                 weights[col].flatten().numpy().reshape(-1, 1),
                 params["original_weights"][col].flatten().numpy().reshape(-1, 1),
             )
-- 
2.43.0


From 8c8fcef629988b2078ccb4037068289ccc164963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 054/121] fix: no NaN read noise of the CMO ReRAM noise model
 at small conductances

---
 src/aihwkit/inference/noise/reram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 9f38765..042f527 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -310,7 +310,7 @@ class ReRamCMONoiseModel(BaseNoiseModel):
         g_drift = g_mean + (randn_like(g_prog) * sigma_relaxation * self.drift_scale)
         sigma_read = (
             self.read_dict["K"]
-            * log10(g_drift)
+            * log10(g_drift.clamp(min=1.0))
             * sqrt(log((t_inference + self.read_dict["t_read"]) / (2 * self.read_dict["t_read"])))
         )
         g_final = g_drift + sigma_read * randn_like(g_prog) * self.read_noise_scale
-- 
2.43.0


From 33db7b2a2f4a3d6960b7f3ed60598ef095123cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 055/121] fix: discard programmed weights when loading a state
 dict

---
 src/aihwkit/simulator/tiles/module.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 1495bc3..75f9b09 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -443,3 +443,14 @@ class TileModule(Module, TileModuleBase):
 
             analog_state["rpu_config"] = analog_tile.rpu_config
         analog_tile.__setstate__(analog_state)
+
+        # The programmed weights are not part of the state dict. Discard
+        # those which belong to the weights before loading.
+        for name in (
+            "reference_combined_weights",
+            "programmed_weights",
+            "drift_noise_parameters",
+            "drift_baseline",
+        ):
+            if hasattr(analog_tile, name):
+                setattr(analog_tile, name, None)
-- 
2.43.0


From f778cb8f4ef489e05fa114ae1fdb1ea1179cc8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 056/121] fix: reset and restore the modified weights of a tile
 together with its weights

---
 src/rpucuda/rpu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..ddcf487 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -463,6 +463,7 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
@@ -1311,6 +1312,10 @@ template <typename T> void RPUSimple<T>::setWeights(const T *weightsptr) {
     int size = this->d_size_ * this->x_size_;
     memcpy(w, weightsptr, size * sizeof(T));
   }
+  if (fb_weights_ != nullptr) {
+    // modified weights are outdated (until modified again)
+    RPU::math::copy<T>(this->d_size_ * this->x_size_, w, 1, fb_weights_[0], 1);
+  }
 }
 
 template <typename T> void RPUSimple<T>::setWeightsWithAlpha(const T *weightsptr, T assumed_wmax) {
-- 
2.43.0


From e94a1608d48734f70c8508ad168997a1bbe0b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 057/121] fix: no NaN weights when discretizing zero weights in
 the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 541999a..0c8a2c4 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -243,6 +243,8 @@ class TorchSimulatorTile(SimulatorTile, Module):
         assumed_wmax = modifier.assumed_wmax
         if modifier.rel_to_actual_wmax:
             assumed_wmax = inp_weight.abs().max()
+            if assumed_wmax <= 0:
+                assumed_wmax = 1.0
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-- 
2.43.0


From 63fc0cb5cb7ac654b6e76c2daf08c1dc64344a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 058/121] fix: discretize the weights for each batch sample

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 0c8a2c4..baa5c3c 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -248,7 +248,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.expand(target_shape).clone()
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 868f4797d82544936a0d3e488bf229b5625f4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 059/121] fix: calibrate the input ranges only of the selected
 tiles and restore all tiles

---
 .../inference/calibration/calibration.py      | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..d4fdc0e 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -249,14 +249,6 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
     for tile_name, tile in model.named_analog_tiles():
         rpu_config = tile.rpu_config
 
@@ -266,8 +258,19 @@ def calibrate_input_ranges(
         if not force_all_layers and not rpu_config.pre_post.input_range.enable:
             continue
 
+        # Restore the tile if necessary
+        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
+
         inputs = cache[tile_name]
-        if inputs.numel() == 0:
+        if inputs.numel() == 0 and calibration_type in [
+            InputRangeCalibrationType.CACHE_QUANTILE,
+            InputRangeCalibrationType.MAX,
+        ]:
             if verbose:
                 print(f"Warning: Tile {tile_name} cached inputs is empty")
             continue
@@ -280,14 +283,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From facda3b2d01ad94b0252c8d8ba0e7638c58eb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 060/121] fix: skip batches of zeros in the input range
 calibration

---
 src/aihwkit/inference/calibration/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index d4fdc0e..86ea23e 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -78,6 +78,8 @@ def _calibration_pre_forward(
     x_input = input_args[0]
     x_input = x_input.reshape(-1, x_input.size(-1))
     x_input = x_input[~(x_input == 0.0).all(-1)]
+    if x_input.numel() == 0:
+        return
 
     ir_params = mod.rpu_config.pre_post.input_range  # type: ignore
     cache = global_cache[cache_key]
-- 
2.43.0


From 07908b73751834a1f113cab55de02e18a7820e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 061/121] fix: scale also the non-relative gradient of the
 input range

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index fbdbfd1..59857ea 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 124bfc8..f4fc174 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1124,7 +1124,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From c0f64f382716d8d15355821acf51a0e46c2ab147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 062/121] fix: quantized tile arrays with one tile or learned
 periphery quantization

---
 src/aihwkit/simulator/tiles/array.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index cb8600b..09e0205 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -227,6 +227,7 @@ class QuantizedTileModuleArray(TileModuleArray):
         # same bit-precision. The wide layers need to be quantized to equalize
         # the range across the different tiles and keep the precision down
         # in case of bias addition.
+        self.module_out_quantizer = None
         if self.analog_tile_count > 1:
             if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                 self.module_out_quantizer = QuantizedActivation(
@@ -234,8 +235,6 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 # Enable the quantization
                 self.module_out_quantizer.quantized_acts()
-            else:
-                self.module_out_quantizer = None
 
         # Initialize the bias quantizer, if quantized periphery is defined
         if self.bias is not None:
@@ -252,7 +251,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From 49b479729b2871e710e3e00b33e4f7a585bb6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 063/121] fix: fraction of clipped outputs in the input range
 gradient

---
 src/aihwkit/simulator/tiles/periphery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index f4fc174..a07f146 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1130,7 +1130,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                n_clipped = zero_grad_msk.count_nonzero().item()
+                output_percentage = 1.0 - n_clipped / zero_grad_msk.numel()
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From 260f5ba6619fd14c42d0a6b2878a37bf94056471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 064/121] fix: separate running average of the noise management
 for the backward pass

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 7 ++++++-
 src/rpucuda/rpu_forward_backward_pass.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index be0a243..f12a6a7 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -187,6 +187,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
     : ForwardBackwardPass<T>(x_size, d_size) {
   rng_ = rng;
   aux_nm_value_ = (T)-1.0;
+  aux_nm_value_bwd_ = (T)-1.0;
 }
 
 // dtor
@@ -1003,7 +1004,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   // io managed version
   b_io_.bound_management = BoundManagementType::None; // not supported
   T nm_scale_value = computeNoiseManagement(
-      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_, b_io_);
+      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_bwd_, b_io_);
   bool nm = b_io_.noise_management != NoiseManagementType::None;
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
@@ -1036,6 +1037,7 @@ void ForwardBackwardPassIOManaged<T>::dumpExtra(RPU::state_t &extra, const std::
 
   RPU::state_t state;
   RPU::insert(state, "aux_nm_value", aux_nm_value_);
+  RPU::insert(state, "aux_nm_value_bwd", aux_nm_value_bwd_);
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -1047,6 +1049,9 @@ void ForwardBackwardPassIOManaged<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
   RPU::load(state, "aux_nm_value", aux_nm_value_, strict);
+  // not available in older checkpoints
+  aux_nm_value_bwd_ = (T)-1.0;
+  RPU::load(state, "aux_nm_value_bwd", aux_nm_value_bwd_, false);
 }
 
 template class ForwardBackwardPassIOManaged<float>;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..ff3295d 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -239,6 +239,7 @@ private:
   T **neg_weights_ = nullptr;
 
   T aux_nm_value_ = -1.0;
+  T aux_nm_value_bwd_ = -1.0;
   IOMetaParameter<T> f_io_;
   IOMetaParameter<T> b_io_;
   bool checked_implemented_ = false;
-- 
2.43.0


From 73f054f2262915ccb7b66ed88fac29612b7fe63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 065/121] fix: realistic weight reading with an input range

---
 src/aihwkit/simulator/tiles/periphery.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index a07f146..cd1501f 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -395,6 +395,10 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         else:
             x_values = x_values.to(self.device)
 
+        # estimate with the inputs that the crossbar receives
+        if self.input_range is not None:
+            x_values = self.apply_input_range(x_values)
+
         # joint forward does only apply the mapping scales
         if not isinstance(self, Module):
             raise TileError("TileWithPeriphery is expected to be part of a Module")
-- 
2.43.0


From be7f491b0af2f07fbab5c56a3b6a6eb4b307f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 066/121] fix: analog_summary leaves the model unchanged

---
 src/aihwkit/utils/analog_info.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index d25c72d..d2da3ee 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -16,7 +16,7 @@ import operator
 from typing import Optional, Any, List
 
 # Imports from PyTorch.
-from torch import zeros
+from torch import zeros, no_grad
 from torch.nn import Module
 
 from aihwkit.nn.modules.base import AnalogLayerBase
@@ -199,13 +199,16 @@ class AnalogInfo:
         self.total_tile_number = self.calculate_num_tiles()
         self.total_nb_analog = self.calculate_num_analog()
 
-    def register_hooks_recursively(self, module: Module, hook: Any) -> None:
+    def register_hooks_recursively(self, module: Module, hook: Any) -> List[Any]:
         """Hooks the function into all layers with no children (or
         only analog tiles as childrens).
-        """
 
+        Returns:
+            The handles to remove the hooks again.
+        """
+        handles = []
         if len(list(module.children())) == 0:
-            module.register_forward_hook(hook)
+            handles.append(module.register_forward_hook(hook))
         elif (
             isinstance(module, AnalogLayerBase)
             and not module.IS_CONTAINER
@@ -214,10 +217,11 @@ class AnalogInfo:
             )
             == 0
         ):  # type: ignore
-            module.register_forward_hook(hook)  # type: ignore
+            handles.append(module.register_forward_hook(hook))  # type: ignore
         else:
             for layer in module.children():
-                self.register_hooks_recursively(layer, hook)
+                handles += self.register_hooks_recursively(layer, hook)
+        return handles
 
     def create_layer_summary(self) -> List[LayerInfo]:
         """Create the layer summary list.
@@ -233,10 +237,19 @@ class AnalogInfo:
             output_size = list(_output.size())
             layer_summary.append(LayerInfo(_, self.rpu_config, input_size, output_size))
 
-        self.register_hooks_recursively(self.model, get_size_hook)
         device = next(self.model.parameters()).device
         dummy_var = zeros(self.input_size).to(device)
-        self.model(dummy_var)
+        training_modes = {module: module.training for module in self.model.modules()}
+        handles = self.register_hooks_recursively(self.model, get_size_hook)
+        try:
+            self.model.eval()
+            with no_grad():
+                self.model(dummy_var)
+        finally:
+            for handle in handles:
+                handle.remove()
+            for module, training in training_modes.items():
+                module.training = training
         return layer_summary
 
     def calculate_num_tiles(self) -> int:
-- 
2.43.0


From 42e7248de3cbfdc6413eb409b946b5eb7e99296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 067/121] fix: analog_summary of mapped layers without size
 limit

---
 src/aihwkit/utils/analog_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index d2da3ee..a6c1f7f 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -61,8 +61,9 @@ class TileInfo:
     def __init__(self, tile: TileModule, is_mapped: bool):
         self.log_in_size = tile.in_size
         self.log_out_size = tile.out_size
-        self.phy_in_size = tile.rpu_config.mapping.max_input_size
-        self.phy_out_size = tile.rpu_config.mapping.max_output_size
+        # a maximal size of 0 means that the tile size is not limited
+        self.phy_in_size = tile.rpu_config.mapping.max_input_size or tile.in_size
+        self.phy_out_size = tile.rpu_config.mapping.max_output_size or tile.out_size
         self.is_mapped = is_mapped
         max_space = self.phy_in_size * self.phy_out_size
         log_space = self.log_in_size * self.log_out_size
-- 
2.43.0


From 007bcba1c67d207b98f5833ae36685af54534eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 068/121] fix: count each analog layer only once in
 analog_summary

---
 src/aihwkit/utils/analog_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index a6c1f7f..0b4030e 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -256,14 +256,15 @@ class AnalogInfo:
     def calculate_num_tiles(self) -> int:
         """Calculate the total number of tiles needed by the model."""
         total_tile_number = 0
-        for x in self.layer_summary:
+        # layers might be applied several times (e.g. in RNNs)
+        for x in {layer.module: layer for layer in self.layer_summary}.values():
             total_tile_number += x.num_tiles
         return total_tile_number
 
     def calculate_num_analog(self) -> int:
         """Calculate the number of analog layers."""
         total_nb_analog = 0
-        for x in self.layer_summary:
+        for x in {layer.module: layer for layer in self.layer_summary}.values():
             total_nb_analog += 1 if x.isanalog else 0
         return total_nb_analog
 
-- 
2.43.0


From 1be798d0660139216817eb17996733fb447454be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 069/121] fix: return a copy of the digital bias from
 get_weights

---
 src/aihwkit/simulator/tiles/array.py     | 2 +-
 src/aihwkit/simulator/tiles/periphery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 09e0205..5fd2cab 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -149,7 +149,7 @@ class TileModuleArray(Module, TileModuleBase):
         weight = cat(weight_lst, 1)
 
         if self.bias is not None:
-            return weight, self.bias.data
+            return weight, self.bias.detach().cpu().clone()
         return weight, None
 
     def forward(self, x_input: Tensor, tensor_view: Optional[Tuple] = None) -> Tensor:
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index cd1501f..79bb2b3 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -230,7 +230,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(combined_weights)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             return weight, bias
@@ -427,7 +427,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(est_weight)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             # we de-apply all scales
-- 
2.43.0


From 35b8ac1a634c9988d248fd1239ff744b959eacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 070/121] fix: construction seed of mixed precision in
 build_config

---
 src/aihwkit/simulator/configs/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/configs/helpers.py b/src/aihwkit/simulator/configs/helpers.py
index fc27168..edca574 100644
--- a/src/aihwkit/simulator/configs/helpers.py
+++ b/src/aihwkit/simulator/configs/helpers.py
@@ -250,7 +250,10 @@ def build_config(
         )
     if algorithm.lower() in ["mp", "mixed-precision"]:
         return DigitalRankUpdateRPUConfig(
-            device=MixedPrecisionCompound(device=device(construction_seed=construction_seed)),
+            device=MixedPrecisionCompound(
+                device=device(construction_seed=construction_seed),
+                construction_seed=construction_seed,
+            ),
             forward=io_parameters(),
             backward=io_parameters(),
             update=up_parameters(),
-- 
2.43.0


From 420a59191f8d6f280f45682e20c2bc620f39d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 071/121] fix: time-dependent IR drop with an odd number of
 outputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 2207b7e..c083e0f 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -84,7 +84,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             IR drop in both directions (to north and south ADCs) in a
             symmetric tile design.
         """
-        shape = Size(mvm1.shape[0:-1]) + Size([2 * mvm1.shape[-1]])
+        shape = Size(mvm1.shape[0:-1]) + Size([mvm1.shape[-1] + mvm2.shape[-1]])
         mvm = empty(*shape).to(mvm1.device)
         mvm[..., 0::2] = mvm1
         mvm[..., 1::2] = mvm2
-- 
2.43.0


From 3e64a396d2f76e4683af482fe245e3e469d4efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 072/121] fix: time-dependent IR drop of inputs that are not
 two-dimensional

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index c083e0f..d8dfdf9 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -479,7 +479,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
-        mvm = zeros((input_.shape[0], g_lst[0].shape[1])).to(input_.device)
+        mvm = zeros((*input_.shape[:-1], g_lst[0].shape[1])).to(input_.device)
         # (f1, (gp1, gm1)), (f2, (gp2, gm2), ... , (fn, (gpn, gmn)) # low to highest significance
         for f_factor, g_lst_pair in zip(params.get("f_lst", [1.0]), zip(g_lst[::2], g_lst[1::2])):
             vth_nd, rth_nd = cls._thev_equiv(
-- 
2.43.0


From 31b9167d392ec55ce97e587367f886494f69b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 073/121] fix: input dependent read noise with inputs that are
 all zero

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index d8dfdf9..3b020b9 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -246,7 +246,7 @@ class AnalogMVMIRDropT(AnalogMVM):
         if t_integration > 0.:
             x = torch_log10(t_integration)
         else:
-            torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
+            x = torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
 
         # Convert weights into conductance units
         conductances_lst, params = g_converter.convert_to_conductances(weight)
-- 
2.43.0


From cfa9ad1c816d566c14de9d944ec5bbf24bfae079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 074/121] fix: split_mode_bit_shift as a field of the IR drop
 parameters

---
 src/aihwkit/simulator/parameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/io.py b/src/aihwkit/simulator/parameters/io.py
index 9eb1f57..83b4860 100644
--- a/src/aihwkit/simulator/parameters/io.py
+++ b/src/aihwkit/simulator/parameters/io.py
@@ -330,7 +330,7 @@ class IOParametersIRDropT(IOParameters):
     of MAC tile.
     """
 
-    split_mode_bit_shift = 3
+    split_mode_bit_shift: int = 3
     """Number of bits in in LSB (remainder) that is fed to MVM
     tile in first phase of split mode PWM/DAC operation. Split mode
     PWM/DAC operation increases throughput / energy efficiency
-- 
2.43.0


From f805f139a579612d55e40731c0676e68a9b1cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 075/121] fix: duration of the time slices of the IR drop with
 other time resolutions

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 3b020b9..0c0f6f8 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -479,6 +479,10 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
+        # duration of a time slice in units of the PWM time resolution (1 for the default
+        # ir_drop_time_step_resolution_scale)
+        time_step = t_max * bit_res / 2.0 / (time_steps - 1) if time_steps > 1 else 1.0
+
         mvm = zeros((*input_.shape[:-1], g_lst[0].shape[1])).to(input_.device)
         # (f1, (gp1, gm1)), (f2, (gp2, gm2), ... , (fn, (gpn, gmn)) # low to highest significance
         for f_factor, g_lst_pair in zip(params.get("f_lst", [1.0]), zip(g_lst[::2], g_lst[1::2])):
@@ -500,6 +504,8 @@ class AnalogMVMIRDropT(AnalogMVM):
                 i_out_nd = torch.cat((i_out_nd[..., 0].unsqueeze(-1), i_out_nd), -1)
                 mvm_even_col_down_adc = torch_trapz(i_out_nd, dim=-1)
 
+            mvm_even_col_down_adc *= time_step
+
             if io_pars.adc_quantization:
                 mvm_even_col_down_adc = cls._apply_adc_quantization(mvm_even_col_down_adc, io_pars)
 
@@ -521,6 +527,8 @@ class AnalogMVMIRDropT(AnalogMVM):
                 i_out_nd = torch.cat((i_out_nd[..., 0].unsqueeze(-1), i_out_nd), -1)
                 mvm_odd_col_up_adc = torch_trapz(i_out_nd, dim=-1)
 
+            mvm_odd_col_up_adc *= time_step
+
             if io_pars.adc_quantization:
                 mvm_odd_col_up_adc = cls._apply_adc_quantization(mvm_odd_col_up_adc, io_pars)
 
-- 
2.43.0


From 3e9dd7225b572b66fe3211dc4b2823f78228eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 076/121] fix: pad tiles with a single unused row in the
 time-dependent IR drop

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 0c0f6f8..73e44be 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -106,9 +106,9 @@ class AnalogMVMIRDropT(AnalogMVM):
         Returns:
             Tuple[Tensor] containing the symmetrically 0-padded input_ and weight
         """
-        pad1 = int((phys_input_size - weight.shape[0]) / 2)
-        if pad1 == 0:
+        if phys_input_size == weight.shape[0]:
             return input_, weight
+        pad1 = int((phys_input_size - weight.shape[0]) / 2)
         pad2 = phys_input_size - weight.shape[0] - pad1
         input_pad_tuple = (pad1, pad2) + (0, 0) * (input_.dim() - 1)
         input_ = pad(input_, input_pad_tuple, "constant", 0)
-- 
2.43.0


From a9b9233131ad5929c27e1f32114af93fbe50216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 077/121] fix: time-dependent IR drop of inputs that are not
 contiguous

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 73e44be..d531e34 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -350,7 +350,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         out_sh = Size(input_.shape[0:-1]) + Size([gp_2d.shape[1]]) + Size([time_steps])
 
-        input_ = input_.view(-1, input_.shape[-1])  # make 2d
+        input_ = input_.reshape(-1, input_.shape[-1]).contiguous()  # make 2d
 
         if use_extension and extension_ops is not None:
             # use C++ code for speedup if available
-- 
2.43.0


From 34dffad4dcf97ef15de7ef7d2026c587e2253110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 078/121] fix: duration of the pulses of the time-dependent IR
 drop in case of rounding errors

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index d531e34..e244049 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -352,6 +352,10 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         input_ = input_.reshape(-1, input_.shape[-1]).contiguous()  # make 2d
 
+        # pulses that end with a time slice must not extend into the next one because of
+        # the floating point accuracy
+        input_ = input_ * (1.0 - 1e-6)
+
         if use_extension and extension_ops is not None:
             # use C++ code for speedup if available
             output = extension_ops.thevenin_equiv(
-- 
2.43.0


From c6b9699b23ef19d19b4718ee086f3127ec88293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 079/121] fix: mirror the first device in a one-sided unit cell
 with copy_inverted

---
 src/rpucuda/rpu_powstep_reference_device.h    | 2 +-
 src/rpucuda/rpu_pulsed_device.cpp             | 8 ++++----
 src/rpucuda/rpu_softbounds_reference_device.h | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.h b/src/rpucuda/rpu_powstep_reference_device.h
index ba171b9..0bd94e1 100644
--- a/src/rpucuda/rpu_powstep_reference_device.h
+++ b/src/rpucuda/rpu_powstep_reference_device.h
@@ -127,7 +127,7 @@ template <typename T> class PowStepReferenceRPUDevice : public PulsedRPUDevice<T
         for (int i = 0; i < this->d_size_; ++i) {
           w_gamma_down_[i][j] = gamma_up[i][j];
           w_gamma_up_[i][j] = gamma_down[i][j];
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->w_reference_[i][j];
         }
       }
 
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index e78f118..5d05827 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -552,12 +552,12 @@ void PulsedRPUDevice<T>::copyInvertDeviceParameter(const PulsedRPUDeviceBase<T>
     for (int i = 0; i < this->d_size_; ++i) {
 
       // scaleup/down both have same sign
-      std::swap(w_scale_up_[i][j], w_scale_down_[i][j]);
+      w_scale_up_[i][j] = rpu->w_scale_down_[i][j];
+      w_scale_down_[i][j] = rpu->w_scale_up_[i][j];
 
       // min max have sign. mirror
-      T b = w_max_bound_[i][j];
-      w_max_bound_[i][j] = -w_min_bound_[i][j];
-      w_min_bound_[i][j] = -b;
+      w_max_bound_[i][j] = -rpu->w_min_bound_[i][j];
+      w_min_bound_[i][j] = -rpu->w_max_bound_[i][j];
     }
   }
 }
diff --git a/src/rpucuda/rpu_softbounds_reference_device.h b/src/rpucuda/rpu_softbounds_reference_device.h
index f2a5b56..7497f1b 100644
--- a/src/rpucuda/rpu_softbounds_reference_device.h
+++ b/src/rpucuda/rpu_softbounds_reference_device.h
@@ -87,7 +87,7 @@ template <typename T> class SoftBoundsReferenceRPUDevice : public PulsedRPUDevic
       /*invert copy DP */
       for (int j = 0; j < this->x_size_; ++j) {
         for (int i = 0; i < this->d_size_; ++i) {
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->w_reference_[i][j];
         }
       }
 
-- 
2.43.0


From 955c5f0d512851741587e85fd1d925a23907c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 080/121] fix: scale the transfer cycles with the number of
 transferred columns or rows

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 88f64c9..8d7934d 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From 3e17e80dd693f50c4573208ff52582d6867063b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 081/121] fix: compute the pulses of a transfer compound with
 the step size of the fast device

---
 src/rpucuda/rpu_transfer_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 8d7934d..6f3db20 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -350,6 +350,9 @@ void TransferRPUDevice<T>::populate(
   for (int k = 0; k < this->n_devices_; k++) {
     this->reduce_weightening_[k] = par.gamma_vec[k];
   }
+  // only the first (fast) device receives the pulses of the update
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
+
   resetCounters(); // "state" pars
   setTransferVecs();
   transfer_every_ = par.transfer_every_vec; // already checked for length
@@ -662,6 +665,7 @@ void TransferRPUDevice<T>::getDeviceParameter(T **weights, std::vector<T *> &dat
 template <typename T>
 void TransferRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T *> &data_ptrs) {
   VectorRPUDevice<T>::setDeviceParameter(out_weights, data_ptrs);
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
 
   if (fully_hidden_) {
     // weight might have changed because of hidden weight change
-- 
2.43.0


From 4b62b5c3e0e2ac593a9ebe581ccf1bec3aeedb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:22 +0000
Subject: [PATCH 082/121] fix: sign of deterministic pulses for a negative
 learning rate

---
 src/rpucuda/dense_bit_line_maker.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..749fd23 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -303,9 +303,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     // x counts
     generateCountsMean(
         x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
-    // d counts
+    // d counts (the sign of the learning rate is already applied to the x counts)
     generateCountsMean(
-        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
+        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round,
+        (T)fabsf((float)lr));
 
     generateCoincidences(coincidences_, x_counts_, x_size_, d_counts_, d_size_, BL);
     break;
@@ -317,9 +318,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     generateDetImplicit(
         x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
 
-    // d counts
+    // d counts (the sign of the learning rate is already applied to the x counts)
     generateDetImplicit(
-        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, lr);
+        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round,
+        (T)fabsf((float)lr));
 
     generateCoincidencesDetI(coincidences_, x_values_, x_size_, d_values_, d_size_, BL);
   } break;
-- 
2.43.0


From 19e50fc4b47beefb9e2d7c5b678838923b358d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 083/121] fix: step size estimated from the hidden parameters
 of devices with up_down bias

---
 src/rpucuda/rpu_pulsed_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 5d05827..056e518 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -324,6 +324,9 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   dw_min /= this->size_;
+  // average over up and down depends on up_down (see populate)
+  dw_min *= (T)2.0 / ((T)1.0 + (T)fabsf((T)1.0 - (T)fabsf(getPar().up_down)));
+
   // need dw_min for update management
   if ((T)fabsf(dw_min - getPar().dw_min) / getPar().dw_min > (T)2.0 * getPar().dw_min_dtod) {
     RPU_WARNING(
-- 
2.43.0


From 753c60a93c6e1256371eb52ff24ef66448ee7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 084/121] fix: keep the step size when hidden parameters are
 set without changing the pulse responses

---
 src/rpucuda/rpu_pulsed_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 056e518..d6824ea 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -297,11 +297,13 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   T dw_min = (T)0.0;
+  T dw_min_before = (T)0.0;
   int n_drift = 0;
   for (int i = 0; i < this->size_; ++i) {
     int n = 0;
     w_max_bound_[0][i] = data_ptrs[n++][i];
     w_min_bound_[0][i] = data_ptrs[n++][i];
+    dw_min_before += ((T)fabsf(w_scale_up_[0][i]) + (T)fabsf(w_scale_down_[0][i])) / (T)2.0;
     w_scale_up_[0][i] = data_ptrs[n++][i];   // assumed to be positive
     w_scale_down_[0][i] = data_ptrs[n++][i]; // assumed to be positive
     w_decay_scale_[0][i] = data_ptrs[n++][i];
@@ -323,12 +325,14 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
     this->wdrifter_->setNu(data_ptrs[n_drift]);
   }
 
+  bool dw_min_changed = dw_min != dw_min_before;
   dw_min /= this->size_;
   // average over up and down depends on up_down (see populate)
   dw_min *= (T)2.0 / ((T)1.0 + (T)fabsf((T)1.0 - (T)fabsf(getPar().up_down)));
 
   // need dw_min for update management
-  if ((T)fabsf(dw_min - getPar().dw_min) / getPar().dw_min > (T)2.0 * getPar().dw_min_dtod) {
+  if (dw_min_changed &&
+      (T)fabsf(dw_min - getPar().dw_min) / getPar().dw_min > (T)2.0 * getPar().dw_min_dtod) {
     RPU_WARNING(
         "DW min seems to have changed during hidden parameter set. Will update parameter "
         "with estimated value.");
-- 
2.43.0


From a4eb5f954f1270714965d5322005a15f1e5ec656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 085/121] fix: systematic variation of the output noise in the
 torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index baa5c3c..9d74e2c 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -62,7 +62,10 @@ class TorchSimulatorTile(SimulatorTile, Module):
         self._modifier = rpu_config.modifier
         dtype = rpu_config.runtime.data_type.as_torch()
         if self._f_io.out_noise_std > 0:
-            out_noise_values = (self._f_io.out_noise * (1.0 + randn((d_size,), dtype=dtype))).abs()
+            out_noise_values = (
+                self._f_io.out_noise
+                * (1.0 + self._f_io.out_noise_std * randn((d_size,), dtype=dtype))
+            ).abs()
             self.register_buffer("out_noise_values", out_noise_values)
         else:
             self.out_noise_values = None
-- 
2.43.0


From a82929b852eaf03b24c6297848b1aba952af7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 086/121] fix: draw voltage offsets only once and truncate the
 drawn value

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index f12a6a7..ed54918 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -260,7 +260,8 @@ void ForwardBackwardPassIOManaged<T>::populateFBParameter(
     if ((mv_pars.v_offset.size() != out_size) && io.hasVoltageOffsets()) {
       mv_pars.v_offset.resize(out_size);
       for (size_t i = 0; i < out_size; i++) {
-        mv_pars.v_offset[i] = MAX(io.v_offset_std * rng_->sampleGauss(), (T)0.0);
+        T v_offset = io.v_offset_std * rng_->sampleGauss();
+        mv_pars.v_offset[i] = MAX(v_offset, (T)0.0);
       }
     }
 
-- 
2.43.0


From ce15f66d9156ac852ca09dd469f6d02e6915e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 087/121] fix: select the starting slice of random transfers
 uniformly

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 4 ++--
 src/rpucuda/rpu_transfer_device.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 461081e..c856387 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -323,8 +323,8 @@ template <typename T> void MixedPrecRPUDeviceBase<T>::transfer(T **weights, cons
   n_transfers = MIN(n_transfers, this->d_size_);
   int i_row = current_row_index_;
   if (par.random_row && (n_transfers < this->d_size_)) {
-    i_row = MAX(
-        MIN((int)floorf(this->rw_rng_.sampleUniform() * (T)this->d_size_), this->d_size_ - 1), 0);
+    i_row = (int)floorf(this->rw_rng_.sampleUniform() * (T)this->d_size_);
+    i_row = MAX(MIN(i_row, this->d_size_ - 1), 0);
   }
 
   int d2_size = this->d_size_ * this->d_size_;
diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 6f3db20..1e47f68 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -487,7 +487,8 @@ void TransferRPUDevice<T>::transfer(
   int in_size = par.getInSize();
 
   if (par.random_selection) {
-    i_slice = MAX(MIN((int)floorf((float)this->rw_rng_.sampleUniform() * in_size), in_size - 1), 0);
+    i_slice = (int)floorf((float)this->rw_rng_.sampleUniform() * in_size);
+    i_slice = MAX(MIN(i_slice, in_size - 1), 0);
   }
 
   // transfer_vecs_ is always in_size-major (that is trans==false)
-- 
2.43.0


From cd90fb01e12b079631df9ceccdfa419dfb1eccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 088/121] fix: estimate quantization ranges again after they
 have been learned

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..b10c13b 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -313,6 +313,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         """
         Instantiates the quantization parameters based on the provided
@@ -560,6 +561,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         x_min, x_max = self._tensorize_min_max(x_min, x_max)
         self._signed = x_min.min() < 0
-- 
2.43.0


From 8ae574fa92c3606172f6792e819c87b826884acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:17 +0000
Subject: [PATCH 089/121] fix: forget whether data was one-sided when resetting
 the MSE range estimator

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..5ead04f 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -509,6 +509,7 @@ class MSE_Estimator(RangeEstimatorBase):
     def reset(self):
         super().reset()
         self.loss_array = None
+        self.one_sided_dist = None
 
 
 class CrossEntropyEstimator(MSE_Estimator):
-- 
2.43.0


From 97ba8f9636237b5be2eda9dd89bb51d399068ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 090/121] fix: consider the padding mode in quantized
 convolutions

---
 .../low_precision_modules/quantized_base_modules.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 1a604ef..fc4e5c5 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -14,7 +14,7 @@
 
 from typing import Any, Optional
 from torch import Tensor, nn
-from torch.nn.functional import linear, conv2d, layer_norm, embedding
+from torch.nn.functional import linear, layer_norm, embedding
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import (
     FP32Acts,
@@ -39,15 +39,8 @@ class QuantConv2d(QuantizationHijacker, nn.Conv2d):
     def run_forward(
         self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any] = None
     ) -> Tensor:
-        return conv2d(
-            x.contiguous(),
-            weight.contiguous(),
-            bias,
-            self.stride,
-            self.padding,
-            self.dilation,
-            self.groups,
-        )
+        # considers the padding mode
+        return self._conv_forward(x.contiguous(), weight.contiguous(), bias)
 
 
 class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
-- 
2.43.0


From 1828eae2b394969c5ff2783ab08c1957a086db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 091/121] fix: use loaded weights of quantized modules in
 evaluation mode

---
 .../simulator/digital_low_precision/base_quantized_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..18180da 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -134,6 +134,10 @@ class QuantizedModule(nn.Module):
             self.cached_params = None
         return self
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        self.cached_params = None
+        return super()._load_from_state_dict(*args, **kwargs)
+
     def _apply(self, *args, **kwargs):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
-- 
2.43.0


From 75d061313bf33de205b5cc8268dc8616e4bd74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 092/121] fix: convert layer norms without weight or bias to
 quantized modules

---
 src/aihwkit/nn/low_precision_conversion.py                | 3 ++-
 src/aihwkit/nn/low_precision_modules/conversion_utils.py  | 8 +++++++-
 .../nn/low_precision_modules/quantized_base_modules.py    | 4 ++--
 src/aihwkit/simulator/digital_low_precision/hijacker.py   | 4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index b35fdd0..285d6ba 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -116,7 +116,8 @@ def quantize_model(
             kwargs = get_module_args(model, None)
             quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
 
-            quant_model.weight.data = model.weight.data
+            if model.weight is not None:
+                quant_model.weight.data = model.weight.data
             if getattr(model, "bias", None) is not None:
                 quant_model.bias.data = model.bias.data
 
diff --git a/src/aihwkit/nn/low_precision_modules/conversion_utils.py b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
index 33bbd45..77aac09 100644
--- a/src/aihwkit/nn/low_precision_modules/conversion_utils.py
+++ b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
@@ -92,7 +92,13 @@ def get_module_args(module: Module, activation: Optional[Module] = None) -> dict
 
     def get_layernorm_args(module: Module) -> Dict[str, Any]:
         """Quantization arguments for `QuantLayerNorm`"""
-        args = dict(normalized_shape=module.normalized_shape, eps=module.eps)
+        args = dict(
+            normalized_shape=module.normalized_shape,
+            eps=module.eps,
+            elementwise_affine=module.elementwise_affine,
+        )
+        if module.elementwise_affine and module.bias is None:
+            args["bias"] = False
         return args
 
     def get_embedding_args(module: Module) -> Dict[str, Any]:
diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index fc4e5c5..f21bae4 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -52,8 +52,8 @@ class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
         return layer_norm(
             input=x.contiguous(),
             normalized_shape=self.normalized_shape,
-            weight=weight.contiguous(),
-            bias=bias.contiguous(),
+            weight=weight.contiguous() if weight is not None else None,
+            bias=bias.contiguous() if bias is not None else None,
             eps=self.eps,
         )
 
diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index cc7c65d..da7f71f 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -79,12 +79,12 @@ class QuantizationHijacker(QuantizedModule):
 
         weight, bias = self.get_weight_bias()
 
-        if self._quant_w:
+        if self._quant_w and weight is not None:
             weight = self.weight_quantizer(weight)
 
         if self._caching and not self.training and self.cached_params is None:
             self.cached_params = (
-                torch.Tensor(to_numpy(weight)).to(weight.device),
+                torch.Tensor(to_numpy(weight)).to(weight.device) if weight is not None else None,
                 torch.Tensor(to_numpy(bias)).to(bias.device) if bias is not None else None,
             )
         return weight, bias
-- 
2.43.0


From d7ffb6ddef45aa90da47e57b065664fdce09d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 093/121] fix: estimate bias ranges of tile arrays in training
 after an evaluation

---
 src/aihwkit/simulator/tiles/array.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 5fd2cab..65e1f4c 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -296,16 +296,17 @@ class QuantizedTileModuleArray(TileModuleArray):
                     result += q_bias.view(*tensor_view)
 
                 else:
-                    if (
-                        self.training
-                        and self.periph_quant.learn_quant_params
-                        and not self.bias_quantizer.is_learning()
-                    ):
+                    if self.training and not self.periph_quant.learn_quant_params:
+                        self.bias_quantizer.estimate_ranges_train()  # estimate if not learned
+                    elif self.training and not self.bias_quantizer.is_learning():
                         # If learning is enabled, estimate till `init_learning_after`
                         # before switching to learned
                         self.bias_quant_update_idx.data += 1  # count up to the desired batch
                         if self.bias_quant_update_idx > self.periph_quant.init_learning_after:
                             self.bias_quantizer.learn_ranges()  # Switch to learned
+                        else:
+                            # Remain/switch to estimate ranges
+                            self.bias_quantizer.estimate_ranges_train()
 
                     # Add to the result the quantized bias
                     result += self.bias_quantizer(self.bias).view(*tensor_view)
-- 
2.43.0


From c3c8f7ad36e3183cda266b10bb79abc5396b9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 094/121] fix: keep layers without bias when converting
 experiments

---
 src/aihwkit/cloud/converter/v1/i_mappings.py | 4 +++-
 src/aihwkit/cloud/converter/v1/mappings.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 3773a73..d9c6607 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -148,7 +148,9 @@ class LayerFunction(Function):
         Raises ConversionError
         """
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            # analog layers have a boolean attribute
+            return bias if isinstance(bias, bool) else bias is not None
         if field == "rpu_config":
             # preset_cls = type(source.analog_tile.rpu_config)
             analog_tile = next(source.analog_tiles())
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 98766da..aa97e86 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -155,7 +155,9 @@ class LayerFunction(Function):
     def get_field_value_to_proto(self, source: Any, field: str, default: Any = None) -> Any:
         """Get the value of a field."""
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            # analog layers have a boolean attribute
+            return bias if isinstance(bias, bool) else bias is not None
 
         if field == "weight_scaling_omega":
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
-- 
2.43.0


From c8d5b539952b6c73594b25de546a0831335895fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 095/121] fix: restore the weight scaling omega of converted
 training experiments

---
 src/aihwkit/cloud/converter/v1/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index aa97e86..799e52b 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -136,7 +136,7 @@ class Function:
         if weight_scaling_omega is not None:
             if "rpu_config" not in kwargs or not hasattr(kwargs["rpu_config"], "mapping"):
                 raise ConversionError("Expect Mappable RPUConfig")
-            kwargs["rpu_config"].mapping.weights_scaling_omega = weight_scaling_omega
+            kwargs["rpu_config"].mapping.weight_scaling_omega = weight_scaling_omega
 
         return cls(**kwargs)
 
-- 
2.43.0


From a4efe8a3965a06664ee285bddd41615a30884f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:53 +0000
Subject: [PATCH 096/121] fix: retrieve the input of newly created cloud
 experiments

---
 src/aihwkit/cloud/client/entities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/cloud/client/entities.py b/src/aihwkit/cloud/client/entities.py
index 8eff579..270316a 100644
--- a/src/aihwkit/cloud/client/entities.py
+++ b/src/aihwkit/cloud/client/entities.py
@@ -85,6 +85,10 @@ class CloudExperiment:
         if self.status() == CloudJobStatus.UNKNOWN:
             raise ExperimentStatusError("Experiment input is not available")
 
+        # The input is not known for newly created experiments.
+        if self.input_id is None:
+            self.input_id = self._api_client.experiment_get(self.id_).input_id
+
         input_ = self._api_client.input_get(self.input_id)
 
         if "InferenceRPUConfig" in str(input_):
-- 
2.43.0


From 22119c8523ca7980988fa2bd1865e30200fb18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 097/121] fix: make the analog matrix usable as a linear
 operator

---
 src/aihwkit/linalg/matrix.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/linalg/matrix.py b/src/aihwkit/linalg/matrix.py
index 02e7436..6f6f1d2 100644
--- a/src/aihwkit/linalg/matrix.py
+++ b/src/aihwkit/linalg/matrix.py
@@ -12,7 +12,7 @@ from scipy.sparse.linalg import LinearOperator
 from numpy import ndarray, dtype
 
 # Imports from PyTorch.
-from torch import Tensor, from_numpy
+from torch import Tensor, from_numpy, zeros
 from torch.autograd import no_grad
 
 # Imports from aihwkit.
@@ -89,16 +89,17 @@ class AnalogMatrix(LinearOperator):
         return output
 
     def _matmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ X
+        # columns are the vectors for the linear operator
+        return (self @ X.T).T
 
     def _matvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ x
+        return self @ x.reshape(-1)
 
     def _rmatvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return x @ self
+        return x.reshape(-1) @ self
 
     def _rmatmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return X @ self
+        return (X.T @ self).T
 
     @property
     def shape(self) -> Tuple[int, int]:
@@ -108,7 +109,7 @@ class AnalogMatrix(LinearOperator):
     @property
     def dtype(self) -> dtype:
         """Return data type."""
-        return self._tile.rpu_config.get_data_type().as_torch()
+        return zeros(1, dtype=self._tile.get_dtype()).numpy().dtype
 
     def ger(
         self, x_matrix: Union[Tensor, ndarray], d_matrix: Union[Tensor, ndarray], alpha: float = 1.0
-- 
2.43.0


From cd2583668a6ce69a75dd83404c6b6352802ba906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 098/121] fix: program weights that are all zero

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 79bb2b3..aa9ca94 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -297,7 +297,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         for _ in range(max_iter):
             y = self.tile.forward(x_values, False)
             error = y - target_values
-            if tolerance is not None and (error.abs().mean().item() / target_max) < tolerance:
+            if tolerance is not None and error.abs().mean().item() <= tolerance * target_max:
                 break
             self.tile.update(x_values, error, False)  # type: ignore
 
-- 
2.43.0


From e6f65c74d427c44c68daed1f3e1fc92011b1e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:18 +0000
Subject: [PATCH 099/121] fix: convert numpy operands to the data type of the
 analog matrix

---
 src/aihwkit/linalg/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/linalg/matrix.py b/src/aihwkit/linalg/matrix.py
index 6f6f1d2..7545c6c 100644
--- a/src/aihwkit/linalg/matrix.py
+++ b/src/aihwkit/linalg/matrix.py
@@ -66,7 +66,7 @@ class AnalogMatrix(LinearOperator):
         output_numpy = False
         if isinstance(matrix, ndarray):
             output_numpy = True
-            matrix = from_numpy(matrix).to(self._tile.device)
+            matrix = from_numpy(matrix).to(self._tile.device, self._tile.get_dtype())
 
         with no_grad():
             output = self._tile.forward(matrix)
@@ -79,7 +79,7 @@ class AnalogMatrix(LinearOperator):
         output_numpy = False
         if isinstance(matrix, ndarray):
             output_numpy = True
-            matrix = from_numpy(matrix).to(self._tile.device)
+            matrix = from_numpy(matrix).to(self._tile.device, self._tile.get_dtype())
 
         with no_grad():
             output = self._tile.backward(matrix)
@@ -122,10 +122,10 @@ class AnalogMatrix(LinearOperator):
             alpha: scale factor
         """
         if isinstance(x_matrix, ndarray):
-            x_matrix = from_numpy(x_matrix)
+            x_matrix = from_numpy(x_matrix).to(self._tile.device, self._tile.get_dtype())
 
         if isinstance(d_matrix, ndarray):
-            d_matrix = from_numpy(d_matrix)
+            d_matrix = from_numpy(d_matrix).to(self._tile.device, self._tile.get_dtype())
 
         self._tile.set_learning_rate(alpha)
         self._tile.update(x_matrix, -d_matrix)
-- 
2.43.0


From 1cfce3efe4dcf79dcaac38813dca4fd17f908538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:34 +0000
Subject: [PATCH 100/121] fix: apply the choppers of the torch transfer tile
 without changing the inputs

---
 src/aihwkit/simulator/tiles/transfer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index c626d08..e146983 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -120,7 +120,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -214,7 +214,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            # not in-place, as the inputs belong to the user
+            if cfg.transfer_columns:
+                x_input = x_input * self.chopper
+            else:
+                d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 92b8f85bdff1eae257442f0fff7d5eb138326880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 101/121] fix: forget the buffer of the torch transfer tile up
 to the momentum times its value

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index e146983..93cc784 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -277,7 +277,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             # compute update weight
             write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
             if cfg.forget_buffer:
-                self.hidden_weight[k][write_values != 0] = cfg.momentum
+                self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
                 self.hidden_weight[k] += write_values * (1 - cfg.momentum)
 
-- 
2.43.0


From 308b8d7ca0f469c6deaeebedac204004e9d6e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 102/121] fix: subtract only what the torch transfer tile
 transferred from its buffer

---
 src/aihwkit/simulator/tiles/transfer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 93cc784..2d6e5e9 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -275,7 +275,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 self.hidden_weight[k] += lr_h * self.chopper[k] * omega
 
             # compute update weight
-            write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
+            # negative because of update LR, limited to the maximal number of pulses
+            max_steps = cfg.transfer_update.desired_bl
+            write_values = -trunc(self.hidden_weight[k]).clamp(-max_steps, max_steps)
             if cfg.forget_buffer:
                 self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
-- 
2.43.0


From 2d5d4f184949efed4a7c517606f0777a6ae157f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:39 +0000
Subject: [PATCH 103/121] fix: vary the output noise of torch tiles along the
 outputs for batched inputs

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index 5142a4f..290aca0 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -257,9 +257,8 @@ class AnalogMVM:
             if out_noise_values is None:
                 out_values += io_pars.out_noise * randn_like(out_values)
             else:
-                out_values += randn_like(out_values) * out_noise_values.view(
-                    1, -1, *((1,) * (out_values.ndim - 2))
-                )
+                # outputs are the last dimension
+                out_values += randn_like(out_values) * out_noise_values.view(-1)
 
         # - Discretize
         if res > 0 and io_pars.out_bound > 0:
-- 
2.43.0


From 236ead2a4a6088bd6523341e744923985bb21357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 104/121] fix: return a gradient for every argument of the
 float precision cast

---
 src/aihwkit/extension/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/extension/functions.py b/src/aihwkit/extension/functions.py
index 1b91a45..5fd7ca8 100644
--- a/src/aihwkit/extension/functions.py
+++ b/src/aihwkit/extension/functions.py
@@ -8,7 +8,7 @@
 
 """AIHWKIT Extension functions"""
 
-from typing import Any
+from typing import Any, Tuple
 
 from torch import Tensor
 from torch.autograd import Function
@@ -27,9 +27,9 @@ class FloatPrecisionCastFunction(Function):
         return ops.float_precision_cast(input_, exponent, mantissa, saturate_to_inf)
 
     @staticmethod
-    def backward(ctx: Any, grad_in: Tensor) -> Tensor:
+    def backward(ctx: Any, grad_in: Tensor) -> Tuple[Tensor, None, None, None]:
         # pylint: disable=unused-argument, arguments-differ
-        return grad_in
+        return grad_in, None, None, None
 
 
 class FloatPrecisionCast(Module):
-- 
2.43.0


From 2adfe14e68ab8b1107f512c8a94100b714f03fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:09 +0000
Subject: [PATCH 105/121] fix: clip to the largest number in the float
 precision cast

---
 src/aihwkit/extension/extension_src/ops/float_prec_common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/extension/extension_src/ops/float_prec_common.h b/src/aihwkit/extension/extension_src/ops/float_prec_common.h
index 8466e21..32c5dcd 100644
--- a/src/aihwkit/extension/extension_src/ops/float_prec_common.h
+++ b/src/aihwkit/extension/extension_src/ops/float_prec_common.h
@@ -26,7 +26,10 @@
     x_int =                                                                                        \
         f32_exp >= (int)sat_el ? ((x_int | (uint32_t)0x7F800000) & (uint32_t)0xFF800000) : x_int;  \
   } else {                                                                                         \
-    x_int = f32_exp >= (int)sat_el ? (sat_exp | (x_int & ~((uint32_t)0x7F800000))) : x_int;        \
+    /* largest magnitude of the format (keeping the sign) */                                       \
+    x_int = f32_exp > (int)sat_el                                                                  \
+                ? (sat_exp | (x_int & (uint32_t)0x80000000) | (valid_msk & (uint32_t)0x007FFFFF))  \
+                : x_int;                                                                           \
   }                                                                                                \
   x_int = f32_exp <= 0 ? 0 : x_int;                                                                \
   float Y = ((union {                                                                              \
-- 
2.43.0


From 615cdf4af39c8faf0ea09a4f74beafc2d0032901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 106/121] fix: return the figure of plot_device_compact

---
 src/aihwkit/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/visualization.py b/src/aihwkit/utils/visualization.py
index c520d01..ea5aef6 100644
--- a/src/aihwkit/utils/visualization.py
+++ b/src/aihwkit/utils/visualization.py
@@ -582,7 +582,7 @@ def plot_device_compact(
     axis_left.set_xlim(0.0, limit)
     axis_right.set_xlim(0.0, limit)
 
-    return w_trace
+    return figure
 
 
 def plot_device_symmetry(
-- 
2.43.0


From bdd4adb34b89d6e3e0fcaecff05c63b03d19b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 107/121] fix: read without noise during transfers of
 noise-free tiles for plotting

---
 src/aihwkit/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/visualization.py b/src/aihwkit/utils/visualization.py
index ea5aef6..8867432 100644
--- a/src/aihwkit/utils/visualization.py
+++ b/src/aihwkit/utils/visualization.py
@@ -272,7 +272,7 @@ def get_tile_for_plotting(
             setattr(dev, "refresh_update", UpdateParameters(pulse_type=PulseType.NONE))
 
         if hasattr(dev, "transfer_forward"):
-            setattr(dev, "refresh_forward", IOParameters(is_perfect=True))
+            setattr(dev, "transfer_forward", IOParameters(is_perfect=True))
 
         if hasattr(dev, "transfer_update"):
             setattr(dev, "transfer_update", UpdateParameters(pulse_type=PulseType.NONE))
-- 
2.43.0


From c9379913be501d89163b3fcd190b70f915cc2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 108/121] fix: plot the programming error of any weight matrix

---
 src/aihwkit/utils/visualization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/utils/visualization.py b/src/aihwkit/utils/visualization.py
index 8867432..16cdb51 100644
--- a/src/aihwkit/utils/visualization.py
+++ b/src/aihwkit/utils/visualization.py
@@ -771,7 +771,7 @@ def plot_programming_error(
     if w_init is None:
         w_init = np.random.uniform(*w_range, size=(n_rows, n_rows)).astype("float32")
 
-    analog_tile = rpu_config.tile_class(w_init.shape[1], w_init.shape[0], rpu_config, bias=False)
+    analog_tile = rpu_config.tile_class(w_init.shape[0], w_init.shape[1], rpu_config, bias=False)
     if use_cuda:
         analog_tile.cuda()
 
@@ -792,15 +792,15 @@ def plot_programming_error(
     x = np.abs(programmed_weights.numpy().flatten() - w_init.flatten())
     bins = np.linspace(w_range[0], w_range[1], n_bins)
     indices = np.digitize(w_init.flatten(), bins)
-    num_samples = np.bincount(indices)
+    num_samples = np.bincount(indices, minlength=n_bins)[:n_bins]
     msk = num_samples != 0.0
 
-    mean_error = np.bincount(indices, weights=x)
+    mean_error = np.bincount(indices, weights=x, minlength=n_bins)[:n_bins]
     mean_error[msk] /= num_samples[msk]
 
-    std_error = np.bincount(indices, weights=x**2)
+    std_error = np.bincount(indices, weights=x**2, minlength=n_bins)[:n_bins]
     std_error[msk] /= num_samples[msk]
-    std_error = np.sqrt(std_error - mean_error**2)
+    std_error = np.sqrt(np.abs(std_error - mean_error**2))
     std_error[msk] /= np.sqrt(num_samples[msk])
 
     w_max = (w_range[1] - w_range[0]) / 2
-- 
2.43.0


From 4780b01b20fbe9972a1e5eff3980f3ef1593fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 109/121] fix: keep the (drifted) weights when plotting the
 programming error of a model

---
 src/aihwkit/utils/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/visualization.py b/src/aihwkit/utils/visualization.py
index 16cdb51..427693f 100644
--- a/src/aihwkit/utils/visualization.py
+++ b/src/aihwkit/utils/visualization.py
@@ -864,11 +864,13 @@ def plot_model_programming_error(
             raise TileError(
                 "Reference weights not found. Have you programmed the inference weights?"
             )
+        current_weights = tile.tile.get_weights().clone()
         tile.tile.set_weights(tile.reference_combined_weights)
         target_weights, _ = tile.get_weights(
             apply_weight_scaling=apply_weight_scaling, realistic=False
         )
-        tile.tile.set_weights(tile.programmed_weights)
+        # might have drifted since programming
+        tile.tile.set_weights(current_weights)
 
         # still applies the drift compensation, but all other scales are removed.
         programmed_weights, _ = tile.get_weights(
-- 
2.43.0


From c317ce18dbed906fb675928fdd90378413f8add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 110/121] fix: accept lists of pulses and responses for fitting

---
 src/aihwkit/utils/fitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/utils/fitting.py b/src/aihwkit/utils/fitting.py
index acb05c2..da931e1 100644
--- a/src/aihwkit/utils/fitting.py
+++ b/src/aihwkit/utils/fitting.py
@@ -259,6 +259,7 @@ def model_response(
     deviation = array([], "float")
     model_responses = []
     for idx, (numpy_pulses, response) in enumerate(zip(pulse_data, response_data)):
+        numpy_pulses, response = array(numpy_pulses), array(response)
         if numpy_pulses.ndim == 1:
             numpy_pulses = numpy_pulses.reshape(-1, 1)
         if response.ndim == 1:
-- 
2.43.0


From cd9024c07570448165376bb85c45015d673713c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 111/121] fix: allow deep copies of the placeholder of analog
 weights

---
 src/aihwkit/optim/weight_view.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..14f7f9d 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -206,6 +206,14 @@ class PlaceholderDataView(Tensor):
                 f"device={raw.device})"
             )
 
+    def __deepcopy__(self, memo: Any) -> "PlaceholderDataView":
+        """Copy the metadata only (e.g. for ``copy.deepcopy(model.state_dict())``)."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            raw = self.as_subclass(Tensor)
+            result = PlaceholderDataView(raw.new_empty(raw.shape))
+        memo[id(self)] = result
+        return result
+
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment on the placeholder."""
         _raise_placeholder_read_error("__setitem__")
-- 
2.43.0


From f77535feb76d208f5b7afd8cabefa53808c61d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 112/121] fix: list layers shared by several modules once in
 analog_summary

---
 src/aihwkit/utils/analog_info.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index 0b4030e..933720b 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -208,6 +208,8 @@ class AnalogInfo:
             The handles to remove the hooks again.
         """
         handles = []
+        if hook in module._forward_hooks.values():
+            return handles  # layer shared by several parents
         if len(list(module.children())) == 0:
             handles.append(module.register_forward_hook(hook))
         elif (
-- 
2.43.0


From 795508369896f7b7d6e703cf2f3816169277b69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:28 +0000
Subject: [PATCH 113/121] fix: keep analog contexts and tiles together in
 conversions of the data type

---
 src/aihwkit/optim/context.py          | 2 +-
 src/aihwkit/simulator/tiles/module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..209252e 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -486,7 +486,6 @@ class AnalogContext(Parameter):
             This module in the specified device.
         """
         # pylint: disable=invalid-name
-        self._replace_raw_data(self._raw_data().to(*args, **kwargs))
         device = None
         if "device" in kwargs:
             device = kwargs["device"]
@@ -496,6 +495,7 @@ class AnalogContext(Parameter):
         if device is not None:
             device = torch_device(device)
             if device.type == "cuda" and not self.analog_tile.is_cuda:
+                self._replace_raw_data(self._raw_data().to(device))
                 self.cuda(device)
             elif device.type == "cpu" and self.analog_tile.is_cuda:
                 self.cpu()
diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 75f9b09..487ad9f 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -240,7 +240,7 @@ class TileModule(Module, TileModuleBase):
             self._apply_without_context(lambda t: t.to(*new_args, **kwargs))
 
         if dtype is not None:
-            self.analog_ctx.to(dtype=dtype)
+            self._sync_analog_ctx_weights()
             scales = self.get_scales()
             if scales is not None:
                 self.set_scales(scales)
-- 
2.43.0


From 415fa8e2831af75053e323c171a95b226e5cb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:41 +0000
Subject: [PATCH 114/121] fix: return no values from properties of the
 placeholder of analog weights

---
 src/aihwkit/optim/context.py     |  9 +--------
 src/aihwkit/optim/weight_view.py | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 209252e..474f5ce 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -21,6 +21,7 @@ from aihwkit.optim.weight_view import (
     raise_if_readonly_write_target,
     PlaceholderDataView,
     _PLACEHOLDER_METADATA_FUNCTIONS,
+    _VALUE_VIEW_PROPERTIES,
     _raise_placeholder_read_error,
 )
 from aihwkit.simulator.parameters.enums import AnalogContextDataViewMode
@@ -29,14 +30,6 @@ if TYPE_CHECKING:
     from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 
 
-# Tensor properties that materialize weight values (transpose / conjugate views
-# and complex parts). They must honor the data-view mode like their method
-# equivalents (``t()``, ``conj()``); otherwise the getset descriptors fall
-# through to ``__torch_function__`` as the whitelisted ``__get__`` and silently
-# return uninitialized placeholder memory in PLACEHOLDER mode.
-_VALUE_VIEW_PROPERTIES = ("T", "mT", "H", "mH", "real", "imag")
-
-
 class AnalogContext(Parameter):
     """Context for analog optimizer.
 
diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 14f7f9d..2b2d341 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -132,6 +132,14 @@ _PLACEHOLDER_METADATA_FUNCTIONS = {
 }
 
 
+# Tensor properties that materialize weight values (transpose / conjugate views
+# and complex parts). They must honor the data-view mode like their method
+# equivalents (``t()``, ``conj()``); otherwise the getset descriptors fall
+# through to ``__torch_function__`` as the whitelisted ``__get__`` and silently
+# return uninitialized placeholder memory in PLACEHOLDER mode.
+_VALUE_VIEW_PROPERTIES = ("T", "mT", "H", "mH", "real", "imag")
+
+
 def _raise_placeholder_read_error(func_name: str) -> None:
     """Raise the standard error for reads in placeholder mode."""
     operation = func_name or "unknown"
@@ -183,7 +191,16 @@ class PlaceholderDataView(Tensor):
         if func_name not in _PLACEHOLDER_METADATA_FUNCTIONS:
             _raise_placeholder_read_error(func_name)
 
-        if func_name == "detach":
+        if func_name == "type" and (len(args) > 1 or kwargs):
+            _raise_placeholder_read_error(func_name)
+
+        property_name = ""
+        if func_name == "__get__":
+            property_name = getattr(getattr(func, "__self__", None), "__name__", "")
+            if property_name in _VALUE_VIEW_PROPERTIES:
+                _raise_placeholder_read_error(property_name)
+
+        if func_name == "detach" or property_name == "data":
             source = args[0]
             with DisableTorchFunction():  # pylint: disable=not-context-manager
                 return PlaceholderDataView(source.as_subclass(Tensor).detach())
-- 
2.43.0


From 6f327bcdce3a2479cb32c441a342e6ecd57b8e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 115/121] fix: read-only views of analog weights never share
 memory with the tile

---
 src/aihwkit/optim/context.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 474f5ce..8180b63 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -267,12 +267,16 @@ class AnalogContext(Parameter):
         return raw.shape
 
     def _logical_data(self) -> Tensor:
-        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``."""
+        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``.
+
+        Always a copy: writing through views of it (or by operations that are not
+        recognized as in-place) must not bypass the update of the analog tile.
+        """
         raw = self._raw_data()
         try:
             analog_tile = object.__getattribute__(self, "analog_tile")
         except AttributeError:
-            return raw
+            return raw.clone()
 
         logical = raw
         if getattr(analog_tile, "analog_bias", False) and raw.dim() >= 2:
@@ -280,11 +284,11 @@ class AnalogContext(Parameter):
 
         get_scales = getattr(analog_tile, "get_scales", None)
         if get_scales is None:
-            return logical
+            return logical.clone()
 
         scales = get_scales()
         if scales is None:
-            return logical
+            return logical.clone()
 
         scales = scales.to(device=logical.device, dtype=logical.dtype)
         return logical * scales.view(-1, 1)
-- 
2.43.0


From f9fbb46df8bbf50c8ebc694ff98025d683900e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 116/121] fix: detach the data view of analog weights with
 learned scales

---
 src/aihwkit/optim/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 8180b63..25f5e1d 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -290,7 +290,7 @@ class AnalogContext(Parameter):
         if scales is None:
             return logical.clone()
 
-        scales = scales.to(device=logical.device, dtype=logical.dtype)
+        scales = scales.detach().to(device=logical.device, dtype=logical.dtype)
         return logical * scales.view(-1, 1)
 
     def _placeholder_data(self) -> PlaceholderDataView:
-- 
2.43.0


From 5823fddb402a01a89478315bed94f4c1be7cdfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:35 +0000
Subject: [PATCH 117/121] fix: keep optimizers connected to analog tiles when
 loading their state

---
 src/aihwkit/simulator/tiles/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index fd87494..67c320b 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -701,6 +701,8 @@ class SimulatorTileWrapper:
 
         # pylint: disable=too-many-locals, too-many-statements, too-many-branches
 
+        current_ctx = getattr(self, "analog_ctx", None)
+
         if getattr(self, "ignore_analog_state", False) or state.get("ignore_analog_state", False):
             self.__dict__.update(state)
             analog_ctx = self.analog_ctx
@@ -796,7 +798,14 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        if isinstance(current_ctx, AnalogContext):
+            # Loading into an existing tile: optimizers still refer to its context
+            current_ctx.use_torch_update = False
+            current_ctx.use_indexed = False
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.reset(self)
+        else:
+            self.analog_ctx = AnalogContext(self)
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From 2c148488e4dcafcd394ea3ab8d470166bfc992dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:04 +0000
Subject: [PATCH 118/121] fix: keep analog biases of scaled tiles when
 importing conductances

---
 src/aihwkit/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/export.py b/src/aihwkit/utils/export.py
index a8f2ddc..a68eab3 100644
--- a/src/aihwkit/utils/export.py
+++ b/src/aihwkit/utils/export.py
@@ -217,7 +217,7 @@ def fusion_import(
             )
             analog_tile.set_weights(
                 noisy_weights,
-                analog_tile.get_weights()[1],
+                analog_tile.get_weights(apply_weight_scaling=False)[1],
                 apply_weight_scaling=False,
                 realistic=False,
             )
-- 
2.43.0


From 5f5c3399a221379aed0843154f7ca187e46626ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:14 +0000
Subject: [PATCH 119/121] fix: keep learned output scales when setting them as
 mapping scales

---
 src/aihwkit/simulator/tiles/periphery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index aa9ca94..db9bbd6 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -532,7 +532,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-            self.mapping_scales = mapping_scales.flatten().to(self.device)
+            # never share the tensor, e.g. with the learned output scales
+            self.mapping_scales = mapping_scales.detach().flatten().to(self.device).clone()
 
         if getattr(self.rpu_config.mapping, "weight_scaling_lr_compensation", False):
             self.mapping_lr_scale = 1.0 / self.mapping_scales.mean().item()
-- 
2.43.0


From 9d8e2208b81866ae06ccfd8e70a02c3015bb692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:14 +0000
Subject: [PATCH 120/121] fix: count the products of convolutions without batch
 dimension

---
 src/aihwkit/utils/analog_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index 933720b..0dd729b 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -147,7 +147,7 @@ class LayerInfo:
             ruf = reduce(operator.mul, (self.input_size), 1) // int(self.input_size[-1])
             self.__set_reuse_factor(ruf)
         elif isinstance(self.module, (_AnalogConvNd, _AnalogConvNdMapped)):
-            ruf = reduce(operator.mul, (self.output_size), 1) // self.output_size[1]
+            ruf = reduce(operator.mul, (self.output_size), 1) // self.module.out_channels
             self.__set_reuse_factor(ruf)
 
     def tiles_summary_dict(self) -> dict:
-- 
2.43.0


From 618deb5744973be28c4ff5dce8829212a25df766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:52 +0000
Subject: [PATCH 121/121] fix: recognize checkpoints of the current format in
 convert_legacy_checkpoint

The check looked for analog_model instead of analog_module, so that weight templates saved with
the current version failed to load with a KeyError in BasicInferencing. The tile sizes of the
model are only reset if the checkpoint is indeed converted.
---
 src/aihwkit/utils/legacy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 135d037..3f7f9bf 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -78,18 +78,18 @@ def convert_legacy_checkpoint(
             has_mapped = has_mapped or "Mapped" in analog_layer.__class__.__name__
             layer_dic[name] = analog_layer.__class__.__name__
 
-    if not has_mapped:
-        for tile in model.analog_tiles():  # type: ignore
-            tile.rpu_config.mapping.max_input_size = 0
-            tile.rpu_config.mapping.max_output_size = 0
-
     legacy_chkpt = deepcopy(legacy_chkpt)
     for key, value in legacy_chkpt.items():
-        if "analog_model.analog_tile_state" in key:
+        if key.endswith(".analog_tile_state") and ("analog_module." in key or "array." in key):
             # this is actually a new checkpoint. abort.
             rpu_config = deepcopy(value["rpu_config"])
             return legacy_chkpt, rpu_config
 
+    if not has_mapped:
+        for tile in model.analog_tiles():  # type: ignore
+            tile.rpu_config.mapping.max_input_size = 0
+            tile.rpu_config.mapping.max_output_size = 0
+
     for key, value in legacy_chkpt.items():
         if "analog_tile_state" in key:
             rpu_config = value["rpu_config"]
-- 
2.43.0


From f541797841a079c6bdc7089e8e6856696473d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 01/27] fix: pass beta and nelems to scal_inplace in the right
 order in add with alpha=0

---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From b43cfd94035c98c53d19b7a5a18cfa6d97d52262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 02/27] fix: apply beta in add_fiber when alpha is zero

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..2cc42a3 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..22fe557 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 5c1fbb8f3dd09e0009d18c26586af2c0a692effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 03/27] fix: refuse mismatching tile shapes in addcdiv,
 adam_step and adamw_step

---
 src/tensor/adam_step.cc  | 12 ++++++++++++
 src/tensor/adamw_step.cc | 12 ++++++++++++
 src/tensor/addcdiv.cc    |  8 ++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..f6e2f30 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -41,6 +41,18 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if(p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+    if(p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != first_moment.basetile_shape");
+    }
+    if(p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != second_moment.basetile_shape");
+    }
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..0af7300 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -42,6 +42,18 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if(p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+    if(p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != first_moment.basetile_shape");
+    }
+    if(p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != second_moment.basetile_shape");
+    }
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..457d685 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -33,6 +33,14 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
 
+    if(nom.basetile_shape != denom.basetile_shape)
+    {
+        throw std::runtime_error("nom.basetile_shape != denom.basetile_shape");
+    }
+    if(src.basetile_shape != nom.basetile_shape)
+    {
+        throw std::runtime_error("src.basetile_shape != nom.basetile_shape");
+    }
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
-- 
2.43.0


From 0c181f45b280dac6b1cb59003b0751f01042cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 04/27] fix: refuse mismatching tile shapes of sources in
 sumprod_fiber and sumprod_slice

---
 src/tensor/sumprod_fiber.cc | 4 ++++
 src/tensor/sumprod_slice.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From cab6f9b6bedc0e167432bbade0fd916bf744f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 05/27] fix: check axis, all index dimensions and vocabulary
 tiling in embedding

---
 src/tensor/embedding.cc          | 15 ++++++++++++++-
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..cc4222d 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.shape[1] != vocab.basetile_shape[1])
+    {
+        throw std::runtime_error("vocab.shape[1] != vocab.basetile_shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..bb04ead 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,10 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.shape[1] != vocab.basetile_shape[1])
+    {
+        throw std::runtime_error("vocab.shape[1] != vocab.basetile_shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
-- 
2.43.0


From 28ee96ca1279906fb55a934d7c0ff68e212b7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 06/27] fix: dispatch scatter_async to fp64

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From 038daf47d2e257ea2d3822e1813e4381b6830a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 07/27] fix: copy fp16 elements, not fp32 ones, in subcopy_fp16

---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From 3522f891d55b01d4f000ec82c27bbaeb17c8f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 08/27] fix: save every max_second_moment of Adam, not the last
 one repeatedly

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..abdc0d0 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -112,8 +112,8 @@ class Adam:
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
-            m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
-            self.max_second_moments[i].to_array(m_s_m)
+            m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
+            m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
-- 
2.43.0


From 3d610d49aa2404fd6f1a41ce5c395b5701c99dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 09/27] fix: apply bias correction of the second moment
 properly in Adam with amsgrad

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index abdc0d0..2af365d 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From ea9237efa147882bfcba3f4e808f27e51f74e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 10/27] fix: load fp32 states saved by FusedAdam and FusedAdamW

---
 wrappers/python/nntile/optimizer/adam.py  | 10 ++++++++--
 wrappers/python/nntile/optimizer/adamw.py |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 2af365d..f9d8a7a 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -255,6 +255,12 @@ class FusedAdam:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            self.first_moments[i].from_array(first_moments[i].to(torch.float32))
-            self.second_moments[i].from_array(second_moments[i].to(torch.float32))
+            f = first_moments[i]
+            if isinstance(f, torch.Tensor):
+                f = f.to(torch.float32)
+            self.first_moments[i].from_array(f)
+            s = second_moments[i]
+            if isinstance(s, torch.Tensor):
+                s = s.to(torch.float32)
+            self.second_moments[i].from_array(s)
 
diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 6621970..1ca663b 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -120,10 +120,14 @@ class FusedAdamW:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            f = first_moments[i].to(torch.float32)
+            f = first_moments[i]
+            if isinstance(f, torch.Tensor):
+                f = f.to(torch.float32)
             self.first_moments[i].from_array(f)
             del f
-            s = second_moments[i].to(torch.float32)
+            s = second_moments[i]
+            if isinstance(s, torch.Tensor):
+                s = s.to(torch.float32)
             self.second_moments[i].from_array(s)
             del s
         del stored_states, first_moments, second_moments
-- 
2.43.0


From b45da1ab44494065e7e40bc44e036d8d2b015531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 11/27] fix: blocking forward and backward of BaseLayer

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From 3cd2b2df8aeab88417d14d4014561a0daba8b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 12/27] fix: extend flat lists of activations and parameters in
 BaseModel.append

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From 122e6e62efdda5a3e89e46064fd1984f2bc2c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 13/27] fix: block_cyclic with no dimensions or non-positive
 mpi_grid

---
 src/tensor/distributions.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..47d5dbc 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -31,6 +31,13 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
         throw std::runtime_error("Wrong number of dimensions");
     }
     const Index ndim = mpi_grid.size();
+    for(Index i = 0; i < ndim; ++i)
+    {
+        if(mpi_grid[i] <= 0)
+        {
+            throw std::runtime_error("mpi_grid[i] <= 0");
+        }
+    }
     // Check starting and maximum ranks
     if(start_rank < 0 or start_rank >= max_rank)
     {
@@ -50,8 +57,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        int mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From d180d74504c27a866c0c1a9c506975257bbce2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 14/27] fix: refuse tiles of different shapes in sqrt and
 gelutanh

---
 src/tile/gelutanh.cc | 7 ++++++-
 src/tile/sqrt.cc     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From 564019d04f66ff42f75f660456bbfec347415ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 15/27] fix: refuse invalid shapes and negative batch_ndim in
 mask_scalar

---
 src/tensor/mask_scalar.cc |  4 ++++
 src/tile/mask_scalar.cc   | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/tensor/mask_scalar.cc b/src/tensor/mask_scalar.cc
index f804b23..beee18c 100644
--- a/src/tensor/mask_scalar.cc
+++ b/src/tensor/mask_scalar.cc
@@ -28,6 +28,10 @@ template<typename T>
 void mask_scalar_async(const Tensor<bool_t> &mask, T val, const Tensor<T> &A,
         Index batch_ndim)
 {
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(mask.ndim != A.ndim-batch_ndim)
     {
         throw std::runtime_error("mask.ndim != A.ndim-batch_ndim");
diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..bcb09bc 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("A.ndim == 0");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(A.shape[i] != mask.shape[i])
+        {
+            throw std::runtime_error("A.shape[i] != mask.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
-- 
2.43.0


From ae44e40b18de4f9d06f046c98bb63db881e209e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 16/27] fix: normalize a zero slice without division of zero by
 zero

---
 src/kernel/normalize/cpu.cc  | 3 ++-
 src/kernel/normalize/cuda.cu | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..4709581 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -74,7 +74,8 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 // due presence of rounding errors
                 T tmp = std::fabs(mean) / rms;
                 // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Zero slice gives tmp=NaN and shall be treated the same way
+                if(!(tmp < one))
                 {
                     dev = reps;
                 }
diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..2f8bd09 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -58,7 +58,8 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 // due presence of rounding errors
                 T tmp = ::fabs(mean) / rms;
                 // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Zero slice gives tmp=NaN and shall be treated the same way
+                if(!(tmp < one))
                 {
                     dev = reps;
                 }
-- 
2.43.0


From a8bcb4dba2e7274674d6c1903e1c1eef6ad3cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 17/27] fix: refuse negative batch_ndim in add_fiber and
 sum_fiber

---
 src/tensor/add_fiber.cc | 5 +++++
 src/tensor/sum_fiber.cc | 5 +++++
 src/tile/add_fiber.cc   | 5 +++++
 src/tile/sum_fiber.cc   | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 2cc42a3..5aa32d1 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -34,6 +34,11 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
  * @param[inout] dst: Resulting tensor, that is reshaped into 3D array
  * */
 {
+    // Check batch dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     // Check dimensions
     if(src.ndim != batch_ndim+1)
     {
diff --git a/src/tensor/sum_fiber.cc b/src/tensor/sum_fiber.cc
index f438c5d..d39ff00 100644
--- a/src/tensor/sum_fiber.cc
+++ b/src/tensor/sum_fiber.cc
@@ -25,6 +25,11 @@ template<typename T>
 void sum_fiber_async(T alpha, const Tensor<T> &src, T beta,
         const Tensor<T> &dst, Index axis, Index batch_ndim, int redux)
 {
+    // Check batch dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     // Check dimensions
     if(dst.ndim != batch_ndim+1)
     {
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index 22fe557..275496d 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -34,6 +34,11 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
  * @param[inout] dst: Resulting tensor, that is reshaped into 3D array
  * */
 {
+    // Check batch dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     // Check dimensions
     if(src.ndim != batch_ndim+1)
     {
diff --git a/src/tile/sum_fiber.cc b/src/tile/sum_fiber.cc
index 09a4e42..615f63f 100644
--- a/src/tile/sum_fiber.cc
+++ b/src/tile/sum_fiber.cc
@@ -24,6 +24,11 @@ template<typename T>
 void sum_fiber_async(T alpha, const Tile<T> &src, T beta,
         const Tile<T> &dst, Index axis, Index batch_ndim)
 {
+    // Check batch dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     // Check dimensions
     if(dst.ndim != batch_ndim+1)
     {
-- 
2.43.0


From 245bf9f3bf612e8823131a9421ad9a0a6783715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 18/27] fix: randn produced infinity for zero state of the
 generator (e.g. seed=0)

---
 src/kernel/randn/cpu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..e75fecb 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -29,6 +29,11 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
     fp32_t t1 = CORE_slaran(&seed);
+    // Logarithm of zero uniform number (state 0 of the generator) is infinite
+    if(t1 == 0.0)
+    {
+        t1 = RndF_Mul;
+    }
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -39,6 +44,11 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
     fp64_t t1 = CORE_dlaran(&seed);
+    // Logarithm of zero uniform number (state 0 of the generator) is infinite
+    if(t1 == 0.0)
+    {
+        t1 = RndD_Mul;
+    }
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


From 16be182087d0c3b7c82951668adc1873b18673c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 19/27] fix: unregister handle refused because of invalid
 access mode

---
 include/nntile/starpu/config.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..9977d4a 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -215,6 +215,8 @@ class Handle
                 return std::shared_ptr<_starpu_data_state>(ptr,
                         _deleter_temporary);
             default:
+                // The handle is already registered and nobody else owns it
+                _deleter_no_coherency(ptr);
                 throw std::runtime_error("Invalid value of mode");
         }
     }
-- 
2.43.0


From 2e89047c9b7168c1b66e8fdda40a3afa34765db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 20/27] fix: pooling layer overwrote the gradient of its input
 instead of accumulating

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..2e6ec96 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,7 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 8614d0e139d434ed1da641016f319a5ba3d018c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 21/27] fix: layers computed gradients of tensors that do not
 require them

---
 wrappers/python/nntile/layer/add.py        | 10 +++++----
 wrappers/python/nntile/layer/add_slice.py  | 15 ++++++++------
 wrappers/python/nntile/layer/embedding.py  | 11 +++++-----
 wrappers/python/nntile/layer/layer_norm.py | 24 +++++++++++++---------
 wrappers/python/nntile/layer/mixer.py      |  6 ++++--
 5 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/wrappers/python/nntile/layer/add.py b/wrappers/python/nntile/layer/add.py
index cb5a01c..c480203 100644
--- a/wrappers/python/nntile/layer/add.py
+++ b/wrappers/python/nntile/layer/add.py
@@ -45,10 +45,12 @@ class Add(BaseLayer):
         self.res.value.wont_use()
     
     def backward_async(self):
-        add_async(1, self.res.grad, 1, self.x.grad)
-        add_async(1, self.res.grad, 1, self.y.grad)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.res.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            add_async(1, self.res.grad, 1, self.y.grad)
+            self.y.grad.wont_use()
         self.res.grad.wont_use()
 
     def unregister(self):
diff --git a/wrappers/python/nntile/layer/add_slice.py b/wrappers/python/nntile/layer/add_slice.py
index 1b28202..f909f3f 100644
--- a/wrappers/python/nntile/layer/add_slice.py
+++ b/wrappers/python/nntile/layer/add_slice.py
@@ -24,7 +24,8 @@ class AddSlice(BaseLayer):
         # Set up local named parameters
         self.x = x
         self.y = y
-        self.y.grad.set_reduction_add()
+        if self.y.grad is not None:
+            self.y.grad.set_reduction_add()
         self.u = u
         self.axis = axis
         if redux:
@@ -43,11 +44,13 @@ class AddSlice(BaseLayer):
         self.u.value.wont_use()
 
     def backward_async(self):
-        add_async(1, self.u.grad, 1, self.x.grad)
-        sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
-                redux=self.redux)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.u.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
+                    redux=self.redux)
+            self.y.grad.wont_use()
         self.u.grad.wont_use()
         
     # Simple generator for the add_slice layer
diff --git a/wrappers/python/nntile/layer/embedding.py b/wrappers/python/nntile/layer/embedding.py
index f53eead..d8ab9e3 100644
--- a/wrappers/python/nntile/layer/embedding.py
+++ b/wrappers/python/nntile/layer/embedding.py
@@ -81,9 +81,10 @@ class Embedding(BaseLayer):
     def backward_async(self):
         # redux=1 leads to performance loss, as each embedding_backward is a
         # sparse operation, but reduction plays with a full dense vocabulary
-        embedding_backward_async(self.x, self.y.grad, self.w.grad, self.axis, \
-                redux=0)
-        self.x.wont_use()
-        self.y.grad.wont_use()
-        self.w.grad.wont_use()
+        if self.w.grad_required:
+            embedding_backward_async(self.x, self.y.grad, self.w.grad, \
+                    self.axis, redux=0)
+            self.x.wont_use()
+            self.y.grad.wont_use()
+            self.w.grad.wont_use()
 
diff --git a/wrappers/python/nntile/layer/layer_norm.py b/wrappers/python/nntile/layer/layer_norm.py
index bc811fc..a729a39 100644
--- a/wrappers/python/nntile/layer/layer_norm.py
+++ b/wrappers/python/nntile/layer/layer_norm.py
@@ -169,15 +169,17 @@ class LayerNorm(BaseLayer):
     # Backward propagation of the normalization layer
     def backward_async(self):
         # Accumulate gradient over beta
-        sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, self.axis, 0,
-                redux=self.redux)
-        # d_beta can be offloaded from GPU
-        self.beta.grad.wont_use()
+        if self.beta.grad_required:
+            sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, \
+                    self.axis, 0, redux=self.redux)
+            # d_beta can be offloaded from GPU
+            self.beta.grad.wont_use()
         # Accumulate gradient over gamma
-        sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
-                self.gamma.grad, self.axis, redux=self.redux)
-        # d_gamma can be offloaded from GPU
-        self.gamma.grad.wont_use()
+        if self.gamma.grad_required:
+            sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
+                    self.gamma.grad, self.axis, redux=self.redux)
+            # d_gamma can be offloaded from GPU
+            self.gamma.grad.wont_use()
         # Define gradient over normalized input
         prod_fiber3_async(self.gamma.value, 1.0, self.y.grad, \
                 self.tmp_y_grad, self.axis)
@@ -209,10 +211,12 @@ class LayerNorm(BaseLayer):
         #self.inv_stddev.wont_use()
         self.inv_stddev.invalidate_submit()
         # Accumulate gradient from tmp_Y_value
-        axpy_async(1.0, self.tmp_y_value, self.x.grad)
+        if self.x.grad_required:
+            axpy_async(1.0, self.tmp_y_value, self.x.grad)
         # tmp_Y_value can be deleted
         #self.tmp_y_value.wont_use()
         self.tmp_y_value.invalidate_submit()
         # dX can offloade from GPU
-        self.x.grad.wont_use()
+        if self.x.grad_required:
+            self.x.grad.wont_use()
 
diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 2e6ec96..f2f0b27 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,8 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
+        if self.x.grad_required:
+            add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
@@ -224,4 +225,5 @@ class Mixer(BaseLayer):
         add_async(1.0, self.mlp_2.linear_2.y.grad, 1.0, self.mlp_1.y.grad)
         self.mlp_1.backward_async()
         self.norm_1.backward_async()
-        add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
+        if self.x.grad_required:
+            add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
-- 
2.43.0


From ac96d63c8138f7c4af2ab05e1f9f2e7f46e8bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 22/27] fix: cross-entropy loss failed after a model output
 without gradient

---
 wrappers/python/nntile/loss/crossentropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..2be60a8 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -92,8 +92,8 @@ class CrossEntropy:
                     self.scale, self.model_output.grad, 0)
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
+            self.model_output.grad.wont_use()
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From 6b0a6a52103414c742d32f2913a20bbb27a25d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 23/27] fix: to_array silently lost the data when the array had
 another type or order

---
 wrappers/python/nntile/nntile_core.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..0dfe6c0 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -167,9 +167,10 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        def("to_array", tile_to_array<T>, py::arg("array").noconvert());
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_array<T>, py::arg("tile"),
+            py::arg("array").noconvert());
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -344,7 +345,7 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        def("to_array", tensor_to_array<T>, py::arg("array").noconvert()).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -353,7 +354,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
+    m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+            py::arg("array").noconvert());
     m.def("tensor_from_array", tensor_from_array<T>);
 }
 
-- 
2.43.0


From 94e7b6a34ca3ff4a7f0195d377b58c57e25e229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 24/27] fix: loading a double precision AdamW state lost
 precision

---
 wrappers/python/nntile/optimizer/adamw.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 1ca663b..118939e 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -119,15 +119,18 @@ class FusedAdamW:
         
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
+        # Moments are loaded in the precision of the optimizer
+        torch_dtype = torch.float64 if self.dtype == np.float64 \
+                else torch.float32
         for i in range(len(first_moments)):
             f = first_moments[i]
             if isinstance(f, torch.Tensor):
-                f = f.to(torch.float32)
+                f = f.to(torch_dtype)
             self.first_moments[i].from_array(f)
             del f
             s = second_moments[i]
             if isinstance(s, torch.Tensor):
-                s = s.to(torch.float32)
+                s = s.to(torch_dtype)
             self.second_moments[i].from_array(s)
             del s
         del stored_states, first_moments, second_moments
-- 
2.43.0


From 686b00b54539e38c3fe4cb9c4873fa5c9f3e7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 25/27] fix: training with a double precision model could not
 record its loss

---
 wrappers/python/nntile/pipeline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/pipeline.py b/wrappers/python/nntile/pipeline.py
index 59d98fd..80a52c3 100644
--- a/wrappers/python/nntile/pipeline.py
+++ b/wrappers/python/nntile/pipeline.py
@@ -13,7 +13,7 @@
 # @date 2023-09-20
 
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
-        copy_async, axpy_async, clear_async
+        Tensor_fp64, copy_async, axpy_async, clear_async
 from nntile.layer.base_layer import BaseLayer
 from nntile.model.base_model import BaseModel
 import numpy as np
@@ -80,7 +80,10 @@ class Pipeline(object):
                     if t.grad_required:
                         t.grad.wont_use()
                 # Limit parallelism through value of loss
-                loss_np = np.zeros((1,), dtype=np.float32, order="F")
+                loss_dtype = np.float32
+                if type(self.loss.val) is Tensor_fp64:
+                    loss_dtype = np.float64
+                loss_np = np.zeros((1,), dtype=loss_dtype, order="F")
                 self.loss.get_val(loss_np)
                 self.loss_hist.append(loss_np[0])
                 # print("Loss in {} epoch = {}".format(i_epoch, loss_np[0]))
-- 
2.43.0


From f378ab351f818a5c2bd363ae36d70c8c701a15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 26/27] fix: MlpMixer conversion did not transpose a square
 initial layer

---
 wrappers/python/nntile/model/mlp_mixer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..ebe06ad 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,9 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters())):
+            # The initial linear layer is always transposed, even if square
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +129,9 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, torch_mlp_mixer.parameters())):
+                # The initial linear layer is always transposed, even if square
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From 932f555627f900aa03a36bd14858fa7d2259dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 27/27] fix: tensor_from_array and tensor_to_array of the
 module failed for integer and logical tensors

---
 wrappers/python/nntile/nntile_core.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 0dfe6c0..f88e952 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -354,9 +354,14 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
-            py::arg("array").noconvert());
-    m.def("tensor_from_array", tensor_from_array<T>);
+    // NumPy does not know fp16_t, an overload for it would only raise an error
+    // when it is tried on the way to overloads for other types
+    if constexpr(!std::is_same_v<T, fp16_t>)
+    {
+        m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+                py::arg("array").noconvert());
+        m.def("tensor_from_array", tensor_from_array<T>);
+    }
 }
 
 // Extend (sub)module with nntile::tensor::distributions functionality
-- 
2.43.0


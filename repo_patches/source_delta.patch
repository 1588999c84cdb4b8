From 49f093311da620cbdb658c9bede4d36dddcaa447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 01/33] fix: pass scaling factor and size in the right order
 when add degenerates to scaling

With alpha == 0 the add operation reduces to an in-place scaling of dst, but
the number of elements was passed as the factor and the factor as the number
of elements.
---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From 4a51767a7650fcd065f5e72bcb06611f4159a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 02/33] fix: register the half precision subcopy with its own
 element type

---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From fee77490529ac6a00488f74168e7fd417fb76ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 03/33] fix: use the TF32 codelets of flash operations for
 single precision only

---
 src/starpu/flash_maxsumexp.cc.in                           | 3 ++-
 src/starpu/flash_softmax_gemm.cc.in                        | 3 ++-
 src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in         | 3 ++-
 src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/starpu/flash_maxsumexp.cc.in b/src/starpu/flash_maxsumexp.cc.in
index 15d89f2..20d956c 100644
--- a/src/starpu/flash_maxsumexp.cc.in
+++ b/src/starpu/flash_maxsumexp.cc.in
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <limits>
+#include <type_traits>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -308,7 +309,7 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
     }
     // Submit task
     starpu_codelet *chosen_codelet = codelet<T>();
-    if(fp32_fast_tf32 == 1)
+    if(std::is_same<T, fp32_t>::value && fp32_fast_tf32 == 1)
     {
         chosen_codelet = &codelet_fp32_fast_tf32;
     }
diff --git a/src/starpu/flash_softmax_gemm.cc.in b/src/starpu/flash_softmax_gemm.cc.in
index d1bf461..b996042 100644
--- a/src/starpu/flash_softmax_gemm.cc.in
+++ b/src/starpu/flash_softmax_gemm.cc.in
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <limits>
+#include <type_traits>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -340,7 +341,7 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
     }
     // Submit task
     starpu_codelet *chosen_codelet = codelet<T>();
-    if(fp32_fast_tf32 == 1)
+    if(std::is_same<T, fp32_t>::value && fp32_fast_tf32 == 1)
     {
         chosen_codelet = &codelet_fp32_fast_tf32;
     }
diff --git a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
index 33765bd..5a4f861 100644
--- a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <limits>
+#include <type_traits>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -412,7 +413,7 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
     }
     // Submit task
     starpu_codelet *chosen_codelet = codelet<T>();
-    if(fp32_fast_tf32 == 1)
+    if(std::is_same<T, fp32_t>::value && fp32_fast_tf32 == 1)
     {
         chosen_codelet = &codelet_fp32_fast_tf32;
     }
diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index e206436..5645c44 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -19,6 +19,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <limits>
+#include <type_traits>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -383,7 +384,7 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
     }
     // Submit task
     starpu_codelet *chosen_codelet = codelet<T>();
-    if(fp32_fast_tf32 == 1)
+    if(std::is_same<T, fp32_t>::value && fp32_fast_tf32 == 1)
     {
         chosen_codelet = &codelet_fp32_fast_tf32;
     }
-- 
2.43.0


From 8fb2c4783241673d1d524707b7cdc6332a1b5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 04/33] fix: reject flash operation sizes that do not fit the
 BLAS integer type

---
 src/starpu/flash_maxsumexp.cc.in                      | 11 +++++++++++
 src/starpu/flash_softmax_gemm.cc.in                   | 11 +++++++++++
 src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in    | 11 +++++++++++
 .../flash_softmax_gemm_backward_sumprod_slice.cc.in   | 11 +++++++++++
 4 files changed, 44 insertions(+)

diff --git a/src/starpu/flash_maxsumexp.cc.in b/src/starpu/flash_maxsumexp.cc.in
index 20d956c..106b32c 100644
--- a/src/starpu/flash_maxsumexp.cc.in
+++ b/src/starpu/flash_maxsumexp.cc.in
@@ -291,6 +291,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("Size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("Size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm.cc.in b/src/starpu/flash_softmax_gemm.cc.in
index b996042..200b643 100644
--- a/src/starpu/flash_softmax_gemm.cc.in
+++ b/src/starpu/flash_softmax_gemm.cc.in
@@ -323,6 +323,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("Size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("Size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
index 5a4f861..9ba2cf4 100644
--- a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
@@ -395,6 +395,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("Size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("Size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index 5645c44..b804e73 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -366,6 +366,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("Size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("Size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
-- 
2.43.0


From b51e2a404cd2ae7d630ec8bf4761fe3eb83e9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 05/33] fix: validate axis, all index dimensions and vocabulary
 tiling in embedding

---
 src/tensor/embedding.cc          | 15 ++++++++++++++-
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..7231c59 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..88acf2a 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,10 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
-- 
2.43.0


From 9363e5a2e6065c3477bf1cfcc18d566a7fac84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 06/33] fix: reject negative batch_ndim in fiber and mask
 operations

---
 src/tensor/add_fiber.cc   | 4 ++++
 src/tensor/mask_scalar.cc | 4 ++++
 src/tensor/sum_fiber.cc   | 4 ++++
 src/tile/add_fiber.cc     | 4 ++++
 src/tile/sum_fiber.cc     | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..3fb07b2 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tensor/mask_scalar.cc b/src/tensor/mask_scalar.cc
index f804b23..beee18c 100644
--- a/src/tensor/mask_scalar.cc
+++ b/src/tensor/mask_scalar.cc
@@ -28,6 +28,10 @@ template<typename T>
 void mask_scalar_async(const Tensor<bool_t> &mask, T val, const Tensor<T> &A,
         Index batch_ndim)
 {
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(mask.ndim != A.ndim-batch_ndim)
     {
         throw std::runtime_error("mask.ndim != A.ndim-batch_ndim");
diff --git a/src/tensor/sum_fiber.cc b/src/tensor/sum_fiber.cc
index f438c5d..00d8b55 100644
--- a/src/tensor/sum_fiber.cc
+++ b/src/tensor/sum_fiber.cc
@@ -26,6 +26,10 @@ void sum_fiber_async(T alpha, const Tensor<T> &src, T beta,
         const Tensor<T> &dst, Index axis, Index batch_ndim, int redux)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..6378ca7 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tile/sum_fiber.cc b/src/tile/sum_fiber.cc
index 09a4e42..9e9b3ed 100644
--- a/src/tile/sum_fiber.cc
+++ b/src/tile/sum_fiber.cc
@@ -25,6 +25,10 @@ void sum_fiber_async(T alpha, const Tile<T> &src, T beta,
         const Tile<T> &dst, Index axis, Index batch_ndim)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
-- 
2.43.0


From 0bca90ae418580272123326b1089c0186e548f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 07/33] fix: compare tile shapes of all operands of adam,
 addcdiv and sumprod

---
 src/tensor/adam_step.cc     | 12 ++++++++++++
 src/tensor/adamw_step.cc    | 12 ++++++++++++
 src/tensor/addcdiv.cc       |  6 ++++++
 src/tensor/sumprod_fiber.cc |  4 ++++
 src/tensor/sumprod_slice.cc |  4 ++++
 5 files changed, 38 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..43e5658 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -30,16 +30,28 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
     {
         throw std::runtime_error("Parameter shape is not equal to gradient shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to gradient tile shape");
+    }
 
     if (p.matrix_shape != first_moment.matrix_shape)
     {
         throw std::runtime_error("Parameter shape is not equal to first_moment shape");
     }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to first_moment tile shape");
+    }
 
     if (p.matrix_shape != second_moment.matrix_shape)
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to second_moment tile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..0560ead 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -31,16 +31,28 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
     {
         throw std::runtime_error("Parameter shape is not equal to gradient shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to gradient tile shape");
+    }
 
     if (p.matrix_shape != first_moment.matrix_shape)
     {
         throw std::runtime_error("Parameter shape is not equal to first_moment shape");
     }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to first_moment tile shape");
+    }
 
     if (p.matrix_shape != second_moment.matrix_shape)
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to second_moment tile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..e758777 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -28,10 +28,16 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
     if (nom.matrix_shape != denom.matrix_shape) {
         throw std::runtime_error("Nominator shape is not equal to denominator shape");
     }
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("Nominator tile shape is not equal to denominator tile shape");
+    }
 
     if (src.matrix_shape != nom.matrix_shape) {
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("Nominator tile shape is not equal to source tile shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From 988b689b1e97154ffe6f1f2a0aad68535b0e6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 08/33] fix: check operand shapes of tile-wise sqrt, gelutanh
 and mask_scalar

---
 src/tile/gelutanh.cc    |  7 ++++++-
 src/tile/mask_scalar.cc | 18 +++++++++++++++++-
 src/tile/sqrt.cc        |  7 ++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..abe73bb 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,23 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("A.ndim == 0");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(mask.shape[i] != A.shape[i])
+        {
+            throw std::runtime_error("mask.shape[i] != A.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From f93f44e34430bc4ff25b742736894f9b0b526b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 09/33] fix: report a backward activation task that could not
 be created

---
 src/starpu/gelu_backward.cc     | 6 +++++-
 src/starpu/gelutanh_backward.cc | 6 +++++-
 src/starpu/relu_backward.cc     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/starpu/gelu_backward.cc b/src/starpu/gelu_backward.cc
index 36cfb1b..2f2c5a9 100644
--- a/src/starpu/gelu_backward.cc
+++ b/src/starpu/gelu_backward.cc
@@ -131,7 +131,7 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
             STARPU_R, static_cast<starpu_data_handle_t>(dy),
             STARPU_RW, static_cast<starpu_data_handle_t>(dx),
             0);
-    // Only execution node will have non-nullptr task
+    // Check that the task was created
     if(task)
     {
         // Define codelet arguments
@@ -150,6 +150,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
                     "submission");
         }
     }
+    else
+    {
+        throw std::runtime_error("Error in gelu_backward MPI task creation");
+    }
     // Data transfers after the task
 //    starpu_mpi_task_post_build(MPI_COMM_WORLD,
 //            codelet<T>(),
diff --git a/src/starpu/gelutanh_backward.cc b/src/starpu/gelutanh_backward.cc
index a2894ad..78ba163 100644
--- a/src/starpu/gelutanh_backward.cc
+++ b/src/starpu/gelutanh_backward.cc
@@ -131,7 +131,7 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
             STARPU_R, static_cast<starpu_data_handle_t>(dy),
             STARPU_RW, static_cast<starpu_data_handle_t>(dx),
             0);
-    // Only execution node will have non-nullptr task
+    // Check that the task was created
     if(task)
     {
         // Define codelet arguments
@@ -150,6 +150,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
                     "submission");
         }
     }
+    else
+    {
+        throw std::runtime_error("Error in gelutanh_backward MPI task creation");
+    }
     // Data transfers after the task
 //    starpu_mpi_task_post_build(MPI_COMM_WORLD,
 //            codelet<T>(),
diff --git a/src/starpu/relu_backward.cc b/src/starpu/relu_backward.cc
index a73909b..4cc33c5 100644
--- a/src/starpu/relu_backward.cc
+++ b/src/starpu/relu_backward.cc
@@ -137,7 +137,7 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
             STARPU_R, static_cast<starpu_data_handle_t>(dy),
             STARPU_RW, static_cast<starpu_data_handle_t>(dx),
             0);
-    // Only execution node will have non-nullptr task
+    // Check that the task was created
     if(task)
     {
         // Define codelet arguments
@@ -156,6 +156,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
                     "submission");
         }
     }
+    else
+    {
+        throw std::runtime_error("Error in relu_backward MPI task creation");
+    }
     // Data transfers after the task
 //    starpu_mpi_task_post_build(MPI_COMM_WORLD,
 //            codelet<T>(),
-- 
2.43.0


From 34b79cef783ba4dc5ac9e4a78d0bafb4782bfd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 10/33] fix: scale the destination of add_fiber when alpha is
 zero

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 3fb07b2..01b0dcb 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -75,8 +75,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index 6378ca7..d48470a 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -65,8 +65,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 740f257acd607112d37b64a67a1a0dea293e3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 11/33] fix: dispatch scatter_async of double precision tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From cc696363c6132eeee3467be406ba4f5c92461c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 12/33] fix: clear half precision tensors

---
 wrappers/python/nntile/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index bff1a76..328590f 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -568,6 +568,8 @@ def clear_async(x: Tensor) -> None:
         core_tensor.clear_async_fp32(x)
     elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.clear_async_fp64(x)
+    elif type(x) is core_tensor.Tensor_fp16:
+        core_tensor.clear_async_fp16(x)
     else:
         raise TypeError
 
-- 
2.43.0


From e1f541a888cc224f663a25b72955cf6c751d741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 13/33] fix: accumulate the input gradient of GAP

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..2e6ec96 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,7 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 2484d26b1822714bddc9edbb5369fe52161224ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 14/33] fix: import what the half precision linear layer uses

---
 wrappers/python/nntile/layer/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/linear.py b/wrappers/python/nntile/layer/linear.py
index 74e8eff..9f89728 100644
--- a/wrappers/python/nntile/layer/linear.py
+++ b/wrappers/python/nntile/layer/linear.py
@@ -16,7 +16,8 @@ import nntile
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
         TransOp, trans, notrans, copy_async, gemm_async, randn_async, \
         add_slice_async, add_fiber_async, sum_slice_async, sum_fiber_async, \
-        gemm_ex_async
+        gemm_ex_async, Tensor_fp16
+from nntile.nntile_core.tensor import fp32_to_fp16_async, fp16_to_fp32_async
 from nntile.layer.base_layer import BaseLayer
 import numpy as np
 from typing import List, Union, Optional
-- 
2.43.0


From 1c556844826930955e360607698580b9250d8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 15/33] fix: element type of the output of FP16_to_FP32

---
 wrappers/python/nntile/layer/fp16_to_fp32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/layer/fp16_to_fp32.py b/wrappers/python/nntile/layer/fp16_to_fp32.py
index 3ecf37d..a65c1e9 100644
--- a/wrappers/python/nntile/layer/fp16_to_fp32.py
+++ b/wrappers/python/nntile/layer/fp16_to_fp32.py
@@ -36,9 +36,9 @@ class FP16_to_FP32(BaseLayer):
         # Get traits of X
         x_traits = TensorTraits(x.value.shape, x.value.basetile_shape)
         # Create Y with the same traits and distribution as X
-        y_value = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_value = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_value.next_tag
-        y_grad = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_grad = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_grad.next_tag
         y = TensorMoments(y_value, y_grad, True)
         # Create activation layer with all the provided tensors
-- 
2.43.0


From 7593392804d9dda2b2a54563df8cca996d67065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 16/33] fix: undefined names in DeepReLU_mp

---
 wrappers/python/nntile/model/deep_relu_mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/deep_relu_mp.py b/wrappers/python/nntile/model/deep_relu_mp.py
index f66b87d..febb8ad 100644
--- a/wrappers/python/nntile/model/deep_relu_mp.py
+++ b/wrappers/python/nntile/model/deep_relu_mp.py
@@ -27,7 +27,7 @@ class DeepReLU_mp(BaseModel):
     # Construct model with all the provided data
     def __init__(self, x: TensorMoments, side: str, ndim: int, \
             add_shape: int, add_basetile_shape: int, nlayers: int, \
-            n_classes:int, next_tag: int):
+            n_classes:int, next_tag: int, fp32_fast_tf32: bool=False):
         # Check parameter side
         if side != 'L' and side != 'R':
             raise ValueError("side must be either 'L' or 'R'")
@@ -120,7 +120,7 @@ class DeepReLU_mp(BaseModel):
         x_grad_required = False
         x_moments = TensorMoments(x, x_grad, x_grad_required)
         if nonlinearity == "relu":
-            mlp_nntile = DeepReLU(x_moments, 'L', gemm_ndim, hidden_layer_dim,
+            mlp_nntile = DeepReLU_mp(x_moments, 'L', gemm_ndim, hidden_layer_dim,
             hidden_layer_dim_tile, n_layers, n_classes, next_tag)
             for p, p_torch in zip(mlp_nntile.parameters, torch_mlp.parameters()):
                 p.value.from_array(p_torch.detach().numpy().T)
-- 
2.43.0


From 667af46eaf4ed5245a2f8556b436863edaad0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 17/33] fix: step size of Adam with amsgrad

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From cacaec7b02e5124f907c8fefb17c2a61fb6df4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 18/33] fix: give the Frobenius loss the interface Pipeline
 uses

---
 wrappers/python/nntile/loss/frob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..253f984 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,12 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
+    def get_grad(self, grad_np):
+        self.x.grad.to_array(grad_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From 757b0b31cb4907c4dba37c814e7bc2af7373a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 19/33] fix: blocking forward and backward passes of a layer

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From f9d2a541a674e05ad0c043130e44150daff3cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 20/33] fix: append the tensors of a layer to a model one by
 one

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From 0e65c10d5b7e6ee821bb00b0aed05c721c097fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 21/33] fix: state of FusedAdam saved in single precision can
 be loaded

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..1f47b4c 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
-- 
2.43.0


From d11c7b3e1f67287508d961b27db44f7991dab005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 22/33] fix: save every maximal second moment of Adam

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 1f47b4c..88e731b 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -112,8 +112,8 @@ class Adam:
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
-            m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
-            self.max_second_moments[i].to_array(m_s_m)
+            m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
+            m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
-- 
2.43.0


From 5d0fa17e5d719df36df1ec3321f9e62a23915789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 23/33] fix: check bounds in Tensor::get_tile_traits and
 Tensor::get_tile_handle

A linear offset outside the grid of tiles read past the end of the vectors,
while Tensor::get_tile with the same offset throws.
---
 include/nntile/tensor/tensor.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nntile/tensor/tensor.hh b/include/nntile/tensor/tensor.hh
index 94d369d..3f1c88e 100644
--- a/include/nntile/tensor/tensor.hh
+++ b/include/nntile/tensor/tensor.hh
@@ -106,6 +106,10 @@ public:
     }
     const tile::TileTraits &get_tile_traits(Index linear_offset) const
     {
+        if(linear_offset < 0 or linear_offset >= grid.nelems)
+        {
+            throw std::runtime_error("Tile offset is out of bounds");
+        }
         return tile_traits[linear_offset];
     }
     const tile::TileTraits &get_tile_traits(
@@ -116,6 +120,10 @@ public:
     }
     const starpu::Handle &get_tile_handle(Index linear_offset) const
     {
+        if(linear_offset < 0 or linear_offset >= grid.nelems)
+        {
+            throw std::runtime_error("Tile offset is out of bounds");
+        }
         return tile_handles[linear_offset];
     }
     const starpu::Handle &get_tile_handle(
-- 
2.43.0


From 4e348bac14d514e80f50db69f7db735311e04df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 24/33] fix: block_cyclic read out of bounds for a
 zero-dimensional grid

---
 src/tensor/distributions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..4ad1e3e 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -50,7 +50,7 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
+        int mpi_rank = ndim > 0 ? index[ndim-1] : 0;
         for(Index j = ndim-2; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
-- 
2.43.0


From 67d370f897e7198d0bbc49a831aeeb5f96426a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 25/33] fix: copies of HandleLocalData released the same
 acquisition twice

---
 include/nntile/starpu/config.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..af0fd29 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -302,6 +302,9 @@ public:
     {
         acquire(mode);
     }
+    // Acquisition is released once, therefore an object cannot be copied
+    HandleLocalData(const HandleLocalData &) = delete;
+    HandleLocalData &operator=(const HandleLocalData &) = delete;
     virtual ~HandleLocalData()
     {
         if(acquired)
-- 
2.43.0


From 985549d2a078619ec8c0dc510f021c28596cb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 26/33] fix: VariableHandle with an invalid mode left its data
 registered

---
 include/nntile/starpu/config.hh | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index af0fd29..2b7ab01 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -360,9 +360,20 @@ public:
 //! Convenient registration and deregistration of data through StarPU handle
 class VariableHandle: public Handle
 {
+    //! Check mode before registering data, as nobody unregisters it otherwise
+    static void _check_mode(starpu_data_access_mode mode)
+    {
+        if(mode != STARPU_R and mode != STARPU_W and mode != STARPU_RW
+                and mode != STARPU_SCRATCH)
+        {
+            throw std::runtime_error("Invalid value of mode");
+        }
+    }
     //! Register variable for StarPU-owned memory
-    static starpu_data_handle_t _reg_data(size_t size)
+    static starpu_data_handle_t _reg_data(size_t size,
+            starpu_data_access_mode mode)
     {
+        _check_mode(mode);
         if(size == 0)
         {
             throw std::runtime_error("Zero size is not supported");
@@ -372,8 +383,10 @@ class VariableHandle: public Handle
         return tmp;
     }
     //! Register variable
-    static starpu_data_handle_t _reg_data(void *ptr, size_t size)
+    static starpu_data_handle_t _reg_data(void *ptr, size_t size,
+            starpu_data_access_mode mode)
     {
+        _check_mode(mode);
         if(size == 0)
         {
             throw std::runtime_error("Zero size is not supported");
@@ -386,13 +399,13 @@ class VariableHandle: public Handle
 public:
     //! Constructor for variable that is (de)allocated by StarPU
     explicit VariableHandle(size_t size, starpu_data_access_mode mode):
-        Handle(_reg_data(size), mode)
+        Handle(_reg_data(size, mode), mode)
     {
     }
     //! Constructor for variable that is (de)allocated by user
     explicit VariableHandle(void *ptr, size_t size,
             starpu_data_access_mode mode):
-        Handle(_reg_data(ptr, size), mode)
+        Handle(_reg_data(ptr, size, mode), mode)
     {
     }
 };
-- 
2.43.0


From 1d201db8c6d621c5d8db5545841f52ca795a92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 27/33] fix: codelets of randn for zero-dimensional tiles had
 the names of others

A name is also the symbol of a performance model, which is to be unique.
---
 src/starpu/randn.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starpu/randn.cc b/src/starpu/randn.cc
index 739b784..7516f74 100644
--- a/src/starpu/randn.cc
+++ b/src/starpu/randn.cc
@@ -90,11 +90,11 @@ void init()
             footprint<fp64_t>,
             {cpu<fp64_t>},
             {});
-    codelet_fp32_ndim0.init("nntile_randn_fp32",
+    codelet_fp32_ndim0.init("nntile_randn_ndim0_fp32",
             nullptr,
             {cpu_ndim0<fp32_t>},
             {});
-    codelet_fp64_ndim0.init("nntile_randn_fp64",
+    codelet_fp64_ndim0.init("nntile_randn_ndim0_fp64",
             nullptr,
             {cpu_ndim0<fp64_t>},
             {});
-- 
2.43.0


From ad22f078be2c928351d19c6b6391d9e9a9d4ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 28/33] fix: to_array wrote into a temporary copy of an array
 it could not use directly

An array in C order was converted implicitly, the copy was filled and dropped,
and the array of the caller was left as it was. Reject it instead.
---
 wrappers/python/nntile/nntile_core.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..0dfe6c0 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -167,9 +167,10 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        def("to_array", tile_to_array<T>, py::arg("array").noconvert());
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_array<T>, py::arg("tile"),
+            py::arg("array").noconvert());
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -344,7 +345,7 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        def("to_array", tensor_to_array<T>, py::arg("array").noconvert()).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -353,7 +354,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
+    m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+            py::arg("array").noconvert());
     m.def("tensor_from_array", tensor_from_array<T>);
 }
 
-- 
2.43.0


From 1784fc1175c89cf992fe6a7e48eb838e78e7be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 29/33] fix: value of a double precision loss was not read by
 Pipeline

---
 wrappers/python/nntile/pipeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/pipeline.py b/wrappers/python/nntile/pipeline.py
index 59d98fd..573739b 100644
--- a/wrappers/python/nntile/pipeline.py
+++ b/wrappers/python/nntile/pipeline.py
@@ -13,7 +13,7 @@
 # @date 2023-09-20
 
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
-        copy_async, axpy_async, clear_async
+        Tensor_fp64, copy_async, axpy_async, clear_async
 from nntile.layer.base_layer import BaseLayer
 from nntile.model.base_model import BaseModel
 import numpy as np
@@ -41,6 +41,11 @@ class Pipeline(object):
     def train_async(self):
         batch_counter = 0
         total_batch_num = len(self.x)
+        # Value of the loss is read into an array of its own element type
+        if type(self.loss.val) is Tensor_fp64:
+            loss_dtype = np.float64
+        else:
+            loss_dtype = np.float32
         for i_epoch in range(self.n_epochs):
             # print("Epoch ", i_epoch)
             num_batches = len(self.x)
@@ -80,7 +85,7 @@ class Pipeline(object):
                     if t.grad_required:
                         t.grad.wont_use()
                 # Limit parallelism through value of loss
-                loss_np = np.zeros((1,), dtype=np.float32, order="F")
+                loss_np = np.zeros((1,), dtype=loss_dtype, order="F")
                 self.loss.get_val(loss_np)
                 self.loss_hist.append(loss_np[0])
                 # print("Loss in {} epoch = {}".format(i_epoch, loss_np[0]))
-- 
2.43.0


From 67737e7ee91bd4a9820e1cd37faac475ce5cd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:51 +0000
Subject: [PATCH 30/33] fix: normalize gives NaN for a slice of zeros

---
 src/kernel/normalize/cpu.cc  | 5 +++--
 src/kernel/normalize/cuda.cu | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..a22d441 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -47,7 +47,7 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
  * */
 {
     Index dst_offset = 0;
-    constexpr T one = 1;
+    constexpr T zero = 0, one = 1;
     const T invl = one / T(l);
     const T rinvl = std::sqrt(invl);
     const T reps = std::sqrt(eps);
@@ -72,7 +72,8 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = std::fabs(mean) / rms;
+                // (all elements are zero if rms is zero)
+                T tmp = rms > zero ? std::fabs(mean) / rms : zero;
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..610991b 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -30,7 +30,7 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
           i1_start = threadIdx.y + blockIdx.y*blockDim.y,
           i2_step = blockDim.x * gridDim.x,
           i1_step = blockDim.y * gridDim.y;
-    constexpr T one = 1;
+    constexpr T zero = 0, one = 1;
     const T invl = one / T(l);
     const T rinvl = sqrt(invl);
     const T reps = sqrt(eps);
@@ -56,7 +56,8 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = ::fabs(mean) / rms;
+                // (all elements are zero if rms is zero)
+                T tmp = rms > zero ? ::fabs(mean) / rms : zero;
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
-- 
2.43.0


From a9441461649446f7479254fa905b0a220382a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:56 +0000
Subject: [PATCH 31/33] fix: gelutanh gives NaN for some large finite inputs

---
 src/kernel/gelutanh/cpu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/gelutanh/cpu.cc b/src/kernel/gelutanh/cpu.cc
index 3b3aa90..5c09e02 100644
--- a/src/kernel/gelutanh/cpu.cc
+++ b/src/kernel/gelutanh/cpu.cc
@@ -54,7 +54,7 @@ void cpu(Index nelems, const T *src, T *dst)
         T c = y1 - (y2-f3);
         y2 *= z;
         c *= z;
-        T y3 = one + std::exp(c)*std::exp(y2);
+        T y3 = one + std::exp(c+y2);
         dst[i] = z / y3;
     }
 }
-- 
2.43.0


From 884489bac7ed8179cdb264e808d71a2be227f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:56 +0000
Subject: [PATCH 32/33] fix: flash operations reject incompatible shapes and
 tiles

---
 src/tensor/flash_maxsumexp.cc             | 209 +++++++---
 src/tensor/flash_softmax_gemm.cc          | 285 ++++++++++---
 src/tensor/flash_softmax_gemm_backward.cc | 476 +++++++++++++++++++---
 3 files changed, 814 insertions(+), 156 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..54c6f2a 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -28,58 +28,163 @@ void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    // Check shapes of all tensors
+    if(K.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("K.shape[0] != Q.shape[0]");
+    }
+    if(K.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("K.basetile_shape[0] != Q.basetile_shape[0]");
+    }
+    if(K.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("K.shape[2] != Q.shape[2]");
+    }
+    if(K.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("K.basetile_shape[2] != Q.basetile_shape[2]");
+    }
+    if(K.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("K.shape[3] != Q.shape[3]");
+    }
+    if(K.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("K.basetile_shape[3] != Q.basetile_shape[3]");
+    }
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    if(maxsumexp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("maxsumexp.shape[1] != Q.shape[1]");
+    }
+    if(maxsumexp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("maxsumexp.shape[2] != Q.shape[2]");
+    }
+    if(maxsumexp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(maxsumexp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("maxsumexp.shape[3] != Q.shape[3]");
+    }
+    if(maxsumexp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(tmp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[1] != Q.shape[1]");
+    }
+    if(tmp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(tmp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("tmp.shape[2] != Q.shape[2]");
+    }
+    if(tmp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("tmp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(tmp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("tmp.shape[3] != Q.shape[3]");
+    }
+    if(tmp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("tmp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    // Tiles of Q and K shall have the same number of columns
+    if(K.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("K.basetile_shape[1] != Q.basetile_shape[1]");
+    }
+    // Head dimension is never divided into tiles
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles shall be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    if(K.shape[1] % K.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("K.shape[1] % K.basetile_shape[1] != 0");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..a327a8e 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -31,58 +31,239 @@ void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(V.ndim != 4)
+    {
+        throw std::runtime_error("V.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(dst.ndim != 4)
+    {
+        throw std::runtime_error("dst.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    // Check shapes of all tensors
+    if(K.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("K.shape[0] != Q.shape[0]");
+    }
+    if(K.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("K.basetile_shape[0] != Q.basetile_shape[0]");
+    }
+    if(K.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("K.shape[2] != Q.shape[2]");
+    }
+    if(K.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("K.basetile_shape[2] != Q.basetile_shape[2]");
+    }
+    if(K.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("K.shape[3] != Q.shape[3]");
+    }
+    if(K.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("K.basetile_shape[3] != Q.basetile_shape[3]");
+    }
+    if(V.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("V.shape[0] != Q.shape[0]");
+    }
+    if(V.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("V.basetile_shape[0] != Q.basetile_shape[0]");
+    }
+    if(V.shape[1] != K.shape[1])
+    {
+        throw std::runtime_error("V.shape[1] != K.shape[1]");
+    }
+    if(V.basetile_shape[1] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("V.basetile_shape[1] != K.basetile_shape[1]");
+    }
+    if(V.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("V.shape[2] != Q.shape[2]");
+    }
+    if(V.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("V.basetile_shape[2] != Q.basetile_shape[2]");
+    }
+    if(V.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("V.shape[3] != Q.shape[3]");
+    }
+    if(V.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("V.basetile_shape[3] != Q.basetile_shape[3]");
+    }
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    if(maxsumexp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("maxsumexp.shape[1] != Q.shape[1]");
+    }
+    if(maxsumexp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("maxsumexp.shape[2] != Q.shape[2]");
+    }
+    if(maxsumexp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(maxsumexp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("maxsumexp.shape[3] != Q.shape[3]");
+    }
+    if(maxsumexp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(dst.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("dst.shape[0] != Q.shape[0]");
+    }
+    if(dst.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("dst.basetile_shape[0] != "
+                "Q.basetile_shape[0]");
+    }
+    if(dst.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("dst.shape[1] != Q.shape[1]");
+    }
+    if(dst.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("dst.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(dst.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("dst.shape[2] != Q.shape[2]");
+    }
+    if(dst.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("dst.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(dst.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("dst.shape[3] != Q.shape[3]");
+    }
+    if(dst.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("dst.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(tmp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[1] != Q.shape[1]");
+    }
+    if(tmp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(tmp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("tmp.shape[2] != Q.shape[2]");
+    }
+    if(tmp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("tmp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(tmp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("tmp.shape[3] != Q.shape[3]");
+    }
+    if(tmp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("tmp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    // Tiles of Q and K shall have the same number of columns
+    if(K.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("K.basetile_shape[1] != Q.basetile_shape[1]");
+    }
+    // Head dimension is never divided into tiles
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles shall be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    if(K.shape[1] % K.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("K.shape[1] % K.basetile_shape[1] != 0");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..9e98a85 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -31,58 +31,430 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(dQ.ndim != 4)
+    {
+        throw std::runtime_error("dQ.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(dK.ndim != 4)
+    {
+        throw std::runtime_error("dK.ndim != 4");
+    }
+    if(V.ndim != 4)
+    {
+        throw std::runtime_error("V.ndim != 4");
+    }
+    if(dV.ndim != 4)
+    {
+        throw std::runtime_error("dV.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(dst_grad.ndim != 4)
+    {
+        throw std::runtime_error("dst_grad.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    if(tmp_grad.ndim != 4)
+    {
+        throw std::runtime_error("tmp_grad.ndim != 4");
+    }
+    if(tmp_sumprod_slice.ndim != 3)
+    {
+        throw std::runtime_error("tmp_sumprod_slice.ndim != 3");
+    }
+    // Check shapes of all tensors
+    if(dQ.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("dQ.shape[0] != Q.shape[0]");
+    }
+    if(dQ.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("dQ.basetile_shape[0] != "
+                "Q.basetile_shape[0]");
+    }
+    if(dQ.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("dQ.shape[1] != Q.shape[1]");
+    }
+    if(dQ.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("dQ.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(dQ.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("dQ.shape[2] != Q.shape[2]");
+    }
+    if(dQ.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("dQ.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(dQ.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("dQ.shape[3] != Q.shape[3]");
+    }
+    if(dQ.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("dQ.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(K.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("K.shape[0] != Q.shape[0]");
+    }
+    if(K.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("K.basetile_shape[0] != Q.basetile_shape[0]");
+    }
+    if(K.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("K.shape[2] != Q.shape[2]");
+    }
+    if(K.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("K.basetile_shape[2] != Q.basetile_shape[2]");
+    }
+    if(K.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("K.shape[3] != Q.shape[3]");
+    }
+    if(K.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("K.basetile_shape[3] != Q.basetile_shape[3]");
+    }
+    if(dK.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("dK.shape[0] != Q.shape[0]");
+    }
+    if(dK.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("dK.basetile_shape[0] != "
+                "Q.basetile_shape[0]");
+    }
+    if(dK.shape[1] != K.shape[1])
+    {
+        throw std::runtime_error("dK.shape[1] != K.shape[1]");
+    }
+    if(dK.basetile_shape[1] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("dK.basetile_shape[1] != "
+                "K.basetile_shape[1]");
+    }
+    if(dK.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("dK.shape[2] != Q.shape[2]");
+    }
+    if(dK.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("dK.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(dK.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("dK.shape[3] != Q.shape[3]");
+    }
+    if(dK.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("dK.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(V.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("V.shape[0] != Q.shape[0]");
+    }
+    if(V.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("V.basetile_shape[0] != Q.basetile_shape[0]");
+    }
+    if(V.shape[1] != K.shape[1])
+    {
+        throw std::runtime_error("V.shape[1] != K.shape[1]");
+    }
+    if(V.basetile_shape[1] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("V.basetile_shape[1] != K.basetile_shape[1]");
+    }
+    if(V.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("V.shape[2] != Q.shape[2]");
+    }
+    if(V.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("V.basetile_shape[2] != Q.basetile_shape[2]");
+    }
+    if(V.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("V.shape[3] != Q.shape[3]");
+    }
+    if(V.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("V.basetile_shape[3] != Q.basetile_shape[3]");
+    }
+    if(dV.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("dV.shape[0] != Q.shape[0]");
+    }
+    if(dV.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("dV.basetile_shape[0] != "
+                "Q.basetile_shape[0]");
+    }
+    if(dV.shape[1] != K.shape[1])
+    {
+        throw std::runtime_error("dV.shape[1] != K.shape[1]");
+    }
+    if(dV.basetile_shape[1] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("dV.basetile_shape[1] != "
+                "K.basetile_shape[1]");
+    }
+    if(dV.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("dV.shape[2] != Q.shape[2]");
+    }
+    if(dV.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("dV.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(dV.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("dV.shape[3] != Q.shape[3]");
+    }
+    if(dV.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("dV.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    if(maxsumexp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("maxsumexp.shape[1] != Q.shape[1]");
+    }
+    if(maxsumexp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(maxsumexp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("maxsumexp.shape[2] != Q.shape[2]");
+    }
+    if(maxsumexp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(maxsumexp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("maxsumexp.shape[3] != Q.shape[3]");
+    }
+    if(maxsumexp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(dst_grad.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("dst_grad.shape[0] != Q.shape[0]");
+    }
+    if(dst_grad.basetile_shape[0] != Q.basetile_shape[0])
+    {
+        throw std::runtime_error("dst_grad.basetile_shape[0] != "
+                "Q.basetile_shape[0]");
+    }
+    if(dst_grad.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("dst_grad.shape[1] != Q.shape[1]");
+    }
+    if(dst_grad.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("dst_grad.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(dst_grad.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("dst_grad.shape[2] != Q.shape[2]");
+    }
+    if(dst_grad.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("dst_grad.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(dst_grad.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("dst_grad.shape[3] != Q.shape[3]");
+    }
+    if(dst_grad.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("dst_grad.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(tmp.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[1] != Q.shape[1]");
+    }
+    if(tmp.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(tmp.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("tmp.shape[2] != Q.shape[2]");
+    }
+    if(tmp.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("tmp.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(tmp.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("tmp.shape[3] != Q.shape[3]");
+    }
+    if(tmp.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("tmp.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(tmp_grad.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp_grad.shape[0] != K.shape[1]");
+    }
+    if(tmp_grad.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp_grad.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(tmp_grad.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("tmp_grad.shape[1] != Q.shape[1]");
+    }
+    if(tmp_grad.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp_grad.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    if(tmp_grad.shape[2] != Q.shape[2])
+    {
+        throw std::runtime_error("tmp_grad.shape[2] != Q.shape[2]");
+    }
+    if(tmp_grad.basetile_shape[2] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("tmp_grad.basetile_shape[2] != "
+                "Q.basetile_shape[2]");
+    }
+    if(tmp_grad.shape[3] != Q.shape[3])
+    {
+        throw std::runtime_error("tmp_grad.shape[3] != Q.shape[3]");
+    }
+    if(tmp_grad.basetile_shape[3] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("tmp_grad.basetile_shape[3] != "
+                "Q.basetile_shape[3]");
+    }
+    if(tmp_sumprod_slice.shape[0] != Q.shape[1])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.shape[0] != Q.shape[1]");
+    }
+    if(tmp_sumprod_slice.basetile_shape[0] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.basetile_shape[0] != "
+                "Q.basetile_shape[1]");
+    }
+    if(tmp_sumprod_slice.shape[1] != Q.shape[2])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.shape[1] != Q.shape[2]");
+    }
+    if(tmp_sumprod_slice.basetile_shape[1] != Q.basetile_shape[2])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.basetile_shape[1] != "
+                "Q.basetile_shape[2]");
+    }
+    if(tmp_sumprod_slice.shape[2] != Q.shape[3])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.shape[2] != Q.shape[3]");
+    }
+    if(tmp_sumprod_slice.basetile_shape[2] != Q.basetile_shape[3])
+    {
+        throw std::runtime_error("tmp_sumprod_slice.basetile_shape[2] != "
+                "Q.basetile_shape[3]");
+    }
+    // Tiles of Q and K shall have the same number of columns
+    if(K.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("K.shape[1] != Q.shape[1]");
+    }
+    if(K.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("K.basetile_shape[1] != Q.basetile_shape[1]");
+    }
+    // Head dimension is never divided into tiles
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles shall be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From d39eb97264f63268c562302b581c8a6b10da3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:25 +0000
Subject: [PATCH 33/33] fix: randn gave infinity for a zero state of the
 generator (seed 0)

---
 src/kernel/randn/cpu.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..08e3069 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/kernel/randn/cpu.hh"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include "../external/random.h" // from external
@@ -28,7 +29,8 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
         fp32_t stddev)
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp32_t t1 = CORE_slaran(&seed);
+    // Logarithm of a zero (state of generator is zero) is infinite
+    fp32_t t1 = std::max(CORE_slaran(&seed), RndF_Mul);
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -38,7 +40,8 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
         fp64_t stddev)
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp64_t t1 = CORE_dlaran(&seed);
+    // Logarithm of a zero (state of generator is zero) is infinite
+    fp64_t t1 = std::max(CORE_dlaran(&seed), RndD_Mul);
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


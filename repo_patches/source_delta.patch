From ebdb1bb81d70c20198faa283b98592d54ed4d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 01/23] fix: reject non-contiguous arrays in phase rotation

The input baseline coordinates and the output visibilities are addressed by
a flat index, but only the other operands were checked for contiguity.
---
 src/ska-sdp-func/visibility/sdp_phase_rotate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..4ada923 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -99,6 +99,7 @@ void sdp_phase_rotate_uvw(
     sdp_MemType uvw_type = SDP_MEM_VOID;
     sdp_MemLocation uvw_location = SDP_MEM_CPU;
     sdp_mem_check_writeable(uvw_out, status);
+    sdp_mem_check_c_contiguity(uvw_in, status);
     sdp_data_model_get_uvw_metadata(
             uvw_in,
             &uvw_type,
@@ -223,6 +224,7 @@ void sdp_phase_rotate_vis(
     int64_t num_channels = 0;
     int64_t num_pols = 0;
     sdp_mem_check_writeable(vis_out, status);
+    sdp_mem_check_c_contiguity(vis_out, status);
     sdp_mem_check_location(vis_out, uvw_location, status);
     sdp_data_model_get_vis_metadata(
             vis_out,
-- 
2.43.0


From 5985af2c36016fcfadc4f5daeb6d7fe287b806d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 02/23] fix: check the rank of the source directions in
 sdp_dft_point_v01

An array of shape (n, 3, 0) passed the checks, and was then read beyond its end.
---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index 4f0876c..f70886c 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -380,6 +380,7 @@ static void check_params_v01(
     sdp_mem_check_location(source_directions, vis_location, status);
     sdp_mem_check_c_contiguity(source_directions, status);
     const int64_t num_components = sdp_mem_shape_dim(source_directions, 0);
+    sdp_mem_check_num_dims(source_directions, 2, status);
     sdp_mem_check_dim_size(source_directions, 1, 3, status);
 
     // Check metadata for source fluxes.
-- 
2.43.0


From a4efe7a1d79948cd5428a21d4a4f90822acf4473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 03/23] fix: check shapes, types and contiguity of all arrays
 in weighting

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..0f842a3 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -322,9 +322,25 @@ void sdp_weighting_uniform(
             status
     );
 
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+
     sdp_mem_check_location(freq_hz, weights_location, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
+    sdp_mem_check_num_dims(freq_hz, 1, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
+
     sdp_mem_check_writeable(output_weight, status);
     sdp_mem_check_writeable(weights_grid_uv, status);
 
@@ -333,6 +349,7 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -554,9 +571,25 @@ void sdp_weighting_briggs(
             status
     );
 
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+
     sdp_mem_check_location(freq_hz, weights_location, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
+    sdp_mem_check_num_dims(freq_hz, 1, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
+
     sdp_mem_check_writeable(output_weight, status);
     sdp_mem_check_writeable(weights_grid_uv, status);
 
@@ -565,6 +598,7 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From a4195a1af0ecafefea5575f15f240a6c6cf0e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 04/23] fix: skip visibilities that fall below the weights grid

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 0f842a3..eee091e 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,6 +50,7 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
+                if (idx_u < 0 || idx_v < 0) continue;
                 if (idx_u >= grid_size || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
@@ -110,6 +111,7 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
+                if (idx_u < 0 || idx_v < 0) continue;
                 if (idx_u >= grid_size || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
@@ -181,7 +183,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_v >= 0 &&
+                        idx_u < grid_size && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +248,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_v >= 0 &&
+                        idx_u < grid_size && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
-- 
2.43.0


From 079a00607e78f790894dd732caca113834ab169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 05/23] fix: use the type of the flux array in sdp_gridder_dft

The type was taken from the (l,m,n) array, so single-precision
predictions were always rejected and the flux type was not checked.
---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..5368e9e 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1058,7 +1058,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From e027d1d2282866e96ea4b557f832583a67d140cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 06/23] fix: respect kernel data type in
 sdp_gridder_make_pswf_kernel

The end correction wrote a double to a single-precision window.
---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 5368e9e..96708eb 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1344,7 +1344,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (!*status && vr_size > 0 && vr_size % 2 == 0)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_DOUBLE)
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+        else if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From ad00a0c13a94623aced920102f7d9c0faac9c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 07/23] fix: reject an empty grid in sub-grid add and cut-out

The index wrapping loop never ended when the grid had no elements.
---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 96708eb..019cb7d 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -570,6 +570,12 @@ void subgrid_add(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u == 0 || grid_size_v == 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid must not be empty");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
@@ -619,6 +625,12 @@ void subgrid_cut_out(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u == 0 || grid_size_v == 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid must not be empty");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
-- 
2.43.0


From 0af9642050d82643838b596b331a8f658b47a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 08/23] fix: count all pixels of non-square images

sdp_gridder_count_nonzero_pixels read outside images with fewer columns
than rows, and missed columns of those with more.
---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 019cb7d..66e2201 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -107,13 +107,12 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    for (int64_t il = 0; il < image_.shape[0]; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int64_t im = 0; im < image_.shape[1]; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From f3bff8f1b85b1442c770207091e4a543afa83548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 09/23] fix: shift all pixels of non-square sub-grids

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 66e2201..6fd0fcd 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -533,13 +533,14 @@ void shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     if (*status) return;
     const int w_support = subgrids_.shape[0];
-    const int subgrid_size = subgrids_.shape[1];
+    const int size_u = subgrids_.shape[1];
+    const int size_v = subgrids_.shape[2];
     for (int k = 0; k < w_support - 1; ++k)
     {
         #pragma omp parallel for
-        for (int j = 0; j < subgrid_size; ++j)
+        for (int j = 0; j < size_u; ++j)
         {
-            for (int i = 0; i < subgrid_size; ++i)
+            for (int i = 0; i < size_v; ++i)
             {
                 subgrids_(k, j, i) = subgrids_(k + 1, j, i);
             }
-- 
2.43.0


From 080e7ab0badd517c35f1aeac2b8613914123569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 10/23] fix: check the row range in sdp_gridder_sum_diff

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 6fd0fcd..698fa21 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -675,7 +675,7 @@ void sum_diff(
     sdp_mem_check_and_view(a, &a_, status);
     sdp_mem_check_and_view(b, &b_, status);
     if (*status) return;
-    if (a_.shape[0] != b_.shape[0])
+    if (a_.shape[0] != b_.shape[0] || end_row > a_.shape[0])
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
-- 
2.43.0


From db40cb7e3c93adb3c7a57f0347910d3415f3e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 11/23] fix: check array shapes in sdp_gridder elementwise
 functions

Arrays smaller than the output were read outside their bounds.
---
 .../grid_data/sdp_gridder_utils.cpp           | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 698fa21..4a694d7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -15,6 +15,41 @@ using std::complex;
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Local function to check that two dimensions of an array have given sizes.
+template<typename T, sdp_MemLocation LOC>
+void check_shape(
+        const sdp_MemView<T, 2, LOC>& array,
+        int64_t shape0,
+        int64_t shape1,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (array.shape[0] != shape0 || array.shape[1] != shape1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent array shape");
+    }
+}
+
+
+// Local function to check that a 1D array has the given size.
+template<typename T, sdp_MemLocation LOC>
+void check_size(
+        const sdp_MemView<T, 1, LOC>& array,
+        int64_t size,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (array.shape[0] != size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent array size");
+    }
+}
+
+
 // Local function to multiply every element in an array by those in another
 // array raised to the given exponent, accumulating the results in the output:
 // out += in1 * in2 ** exponent
@@ -31,6 +66,8 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    check_shape(in1_, out_.shape[0], out_.shape[1], status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -48,6 +85,8 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        check_shape(in2_, out_.shape[0], out_.shape[1], status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -89,6 +128,8 @@ void accum_complex_real_array(
     sdp_MemViewCpu<const IN_TYPE, 2> in_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in, &in_, status);
+    check_shape(in_, out_.shape[0], out_.shape[1], status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
@@ -498,6 +539,9 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    check_shape(in1_, out_.shape[0], out_.shape[1], status);
+    check_shape(in2_, out_.shape[0], out_.shape[1], status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
-- 
2.43.0


From b10e2fa61eb0492bb19d692e72a7bd145f5a4289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 12/23] fix: check array shapes in sdp_gridder direct
 transforms

Mismatched arrays were read or written outside their bounds.
---
 .../grid_data/sdp_gridder_utils.cpp           | 52 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 4a694d7..ddd1cfb 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -206,6 +206,14 @@ void dft(
     sdp_mem_check_and_view(flux, &flux_, status);
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    check_shape(uvw_, num_uvw, 3, status);
+    check_shape(lmn_, num_sources, 3, status);
+    check_shape(vis_, num_uvw, num_chan, status);
+    if (start_chs && end_chs)
+    {
+        check_size(start_chs_, num_uvw, status);
+        check_size(end_chs_, num_uvw, status);
+    }
     if (*status) return;
 
     // Scale subgrid offset values.
@@ -298,6 +306,16 @@ void idft(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(image, &image_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
+    check_shape(uvw_, num_uvw, 3, status);
+    check_shape(vis_, num_uvw, num_chan, status);
+    check_shape(image_, image_size, image_size, status);
+    check_shape(lmn_, image_size * image_size, 3, status);
+    if (image_taper_1d) check_size(taper_, image_size, status);
+    if (start_chs && end_chs)
+    {
+        check_size(start_chs_, num_uvw, status);
+        check_size(end_chs_, num_uvw, status);
+    }
     if (*status) return;
 
     // Scale subgrid offset values.
@@ -372,17 +390,49 @@ void image_to_flmn(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
 
-    // Store pixel data.
+    // Check array shapes.
     if (*status) return;
     int64_t k = 0;
     const int size_l = (int) sdp_mem_shape_dim(image, 0);
     const int size_m = (int) sdp_mem_shape_dim(image, 1);
+    int64_t num_sources = (int64_t) size_l * size_m;
+    if (sdp_mem_num_dims(image) != 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The image must be 2D");
+        return;
+    }
+    if (flux)
+    {
+        num_sources = count_nonzero_pixels<IMAGE_TYPE>(image, status);
+        if (image_taper_1d)
+        {
+            check_size(taper_, size_l, status);
+            check_size(taper_, size_m, status);
+        }
+        if (*status) return;
+        if (num_sources > sdp_mem_shape_dim(flux, 0))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("The flux array is too small");
+            return;
+        }
+    }
+    if (lmn_.shape[0] < num_sources || lmn_.shape[1] != 3)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent shape of the coordinate array");
+        return;
+    }
+
+    // Store pixel data.
     if (flux)
     {
         sdp_MemViewCpu<const IMAGE_TYPE, 2> image_;
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
-- 
2.43.0


From 3ae9d4885a3229914fd43f4b0d6cacfbd9638ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 13/23] fix: check array shapes in sdp_gridder_uvw_bounds_all
 and make_w_pattern

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index ddd1cfb..28b50e4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -794,10 +794,13 @@ void uvw_bounds_all(
         const sdp_MemViewCpu<const int, 1>& end_chs,
         double uvw_min[3],
         double uvw_max[3],
-        const sdp_Error* status
+        sdp_Error* status
 )
 {
     const int64_t num_uvw = uvws.shape[0];
+    check_shape(uvws, num_uvw, 3, status);
+    check_size(start_chs, num_uvw, status);
+    check_size(end_chs, num_uvw, status);
     if (*status) return;
     for (int64_t i = 0; i < num_uvw; ++i)
     {
@@ -1479,6 +1482,7 @@ void sdp_gridder_make_w_pattern(
     if (*status) return;
     sdp_MemViewCpu<complex<double>, 2> w_pattern_;
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
+    check_shape(w_pattern_, subgrid_size, subgrid_size, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
     #pragma omp parallel for
-- 
2.43.0


From 722e4e19bc5eb23b6892d6c61f2462d23330fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 14/23] fix: do not read a missing result in
 sdp_gridder_sum_diff

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 28b50e4..dfd1043 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2102,7 +2102,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
-- 
2.43.0


From a666cf56c58e4e13733852bfc4bae741fb2c38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 15/23] fix: avoid a data race in sub-grid add when the
 sub-grid exceeds the grid

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index dfd1043..fb5f9c9 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -670,7 +670,8 @@ void subgrid_add(
         SDP_LOG_ERROR("The grid must not be empty");
         return;
     }
-    #pragma omp parallel for
+    // Rows of a sub-grid larger than the grid wrap onto each other.
+    #pragma omp parallel for if(sub_size_u <= grid_size_u)
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
         int64_t i1 = i + grid_size_u / 2 - sub_size_u / 2 - offset_u;
-- 
2.43.0


From 7d129f2348bbfb85a74bc85ce54b40267b3e7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 16/23] fix: do not read missing sums in sdp_weighting_briggs

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index eee091e..5187aad 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -837,11 +837,15 @@ void sdp_weighting_briggs(
                 status
         );
 
-        double robustness = robustness_calc(
-                *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
-                *((double*)sdp_mem_data(sumweight_gpu_cpy)),
-                robust_param
-        );
+        double robustness = 0.0;
+        if (!*status)
+        {
+            robustness = robustness_calc(
+                    *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
+                    *((double*)sdp_mem_data(sumweight_gpu_cpy)),
+                    robust_param
+            );
+        }
 
         sdp_mem_ref_dec(sumweight2_gpu);
         sdp_mem_ref_dec(sumweight_gpu);
-- 
2.43.0


From 6f05178ed2973c3647764b16e91edae8e94bd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 17/23] fix: check the kernels and wrap negative w in
 sdp_degrid_uvw_custom

The kernel arrays' rank and layout, and the w-kernel size against the grid,
were not checked, and samples with w well below zero read before the start of
the w kernel because the remainder of a negative index is negative.
---
 .../grid_data/sdp_degrid_uvw_custom.cpp         | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..b444711 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -52,7 +52,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    int rem_z = ioz % oversample_w;
+    if (rem_z < 0) rem_z += oversample_w; // ioz may be negative.
+    const int frac_z = oversample_w - 1 - rem_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
@@ -230,7 +232,20 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_num_dims(uv_kernel, 2, status);
+    sdp_mem_check_num_dims(w_kernel, 2, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (*status) return;
+    if (uv_kernel_oversampling < 1 || w_kernel_oversampling < 1 ||
+            w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The kernel dimensions are invalid");
+        return;
+    }
 
     if (sdp_mem_location(grid) != vis_location ||
             sdp_mem_location(uv_kernel) != vis_location ||
-- 
2.43.0


From 2c8dc812c2f3b31284b46fbbaee817058bd0aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:35 +0000
Subject: [PATCH 18/23] fix: check arrays in station and element beam functions

Arrays with too few elements, or of another type, layout or location,
were read and written outside their bounds.
---
 .../station_beam/sdp_element_dipole.cpp       | 36 +++++++++
 .../sdp_element_spherical_wave_harp.cpp       | 40 ++++++++++
 src/ska-sdp-func/station_beam/sdp_station.cpp | 78 +++++++++++++++++++
 3 files changed, 154 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..5c260e0 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,42 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    if (sdp_mem_is_read_only(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Element beam array must be writable");
+        return;
+    }
+    const sdp_MemType precision =
+            type == SDP_MEM_COMPLEX_DOUBLE ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    if (sdp_mem_type(theta_rad) != precision ||
+            sdp_mem_type(phi_rad) != precision)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must have the same precision");
+        return;
+    }
+    if (!sdp_mem_is_c_contiguous(theta_rad) ||
+            !sdp_mem_is_c_contiguous(phi_rad) ||
+            !sdp_mem_is_c_contiguous(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C contiguous");
+        return;
+    }
+    const int64_t num_required = num_points <= 0 ? 0 :
+                (int64_t) (num_points - 1) * stride_element_beam +
+                index_offset_element_beam + (element_beam_is_complex4 ? 2 : 1);
+    if (num_points < 0 || stride_element_beam < 1 ||
+            index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_rad) < num_points ||
+            sdp_mem_num_elements(element_beam) < num_required)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..8e530bf 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -156,6 +156,46 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    if (sdp_mem_is_read_only(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Element beam array must be writable");
+        return;
+    }
+    const sdp_MemType precision =
+            type == SDP_MEM_COMPLEX_DOUBLE ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    if (sdp_mem_type(theta_rad) != precision ||
+            sdp_mem_type(phi_x_rad) != precision ||
+            sdp_mem_type(phi_y_rad) != precision ||
+            sdp_mem_type(coeffs) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("All arrays must have the same precision");
+        return;
+    }
+    if (!sdp_mem_is_c_contiguous(theta_rad) ||
+            !sdp_mem_is_c_contiguous(phi_x_rad) ||
+            !sdp_mem_is_c_contiguous(phi_y_rad) ||
+            !sdp_mem_is_c_contiguous(coeffs) ||
+            !sdp_mem_is_c_contiguous(element_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C contiguous");
+        return;
+    }
+    if (num_points < 0 || l_max < 0 || index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_x_rad) < num_points ||
+            sdp_mem_num_elements(phi_y_rad) < num_points ||
+            sdp_mem_num_elements(coeffs) <
+            4 * (((int64_t) l_max + 1) * ((int64_t) l_max + 1) - 1) ||
+            sdp_mem_num_elements(element_beam) <
+            4 * ((int64_t) num_points + index_offset_element_beam))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..bd3dbcb 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -165,6 +165,39 @@ void sdp_station_beam_dft(
 }
 
 
+// Local function to check the properties of an array.
+static void check_array(
+        const sdp_Mem* array,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        int64_t min_elements,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (sdp_mem_type(array) != type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Inconsistent array data type");
+    }
+    else if (sdp_mem_location(array) != location)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+    }
+    else if (!sdp_mem_is_c_contiguous(array))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All arrays must be C contiguous");
+    }
+    else if (sdp_mem_num_elements(array) < min_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array is too small");
+    }
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -220,6 +253,51 @@ void sdp_station_beam_aperture_array(
         return;
     }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    const int64_t num_pols = is_complex4 ? 4 : 1;
+    const sdp_MemType cplx = (sdp_MemType) (precision | SDP_MEM_COMPLEX);
+    if (index_offset_points < 0 || num_points < 0 ||
+            index_offset_station_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Number of points and offsets must not be negative");
+        return;
+    }
+    if (sdp_mem_is_read_only(station_beam))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output beam array must be writable");
+        return;
+    }
+    const int64_t num_points_in = (int64_t) index_offset_points + num_points;
+    check_array(element_weights, cplx, location, num_elements, status);
+    check_array(element_x, precision, location, num_elements, status);
+    check_array(element_y, precision, location, num_elements, status);
+    check_array(element_z, precision, location, num_elements, status);
+    check_array(point_x, precision, location, num_points_in, status);
+    check_array(point_y, precision, location, num_points_in, status);
+    if (sdp_mem_data_const(point_z))
+    {
+        check_array(point_z, precision, location, num_points_in, status);
+    }
+    if (sdp_mem_data_const(element_beam))
+    {
+        int64_t num_responses = num_elements;
+        if (sdp_mem_data_const(element_beam_index))
+        {
+            check_array(element_beam_index, SDP_MEM_INT, location,
+                    num_elements, status
+            );
+            num_responses = 0; // Indices select the responses.
+        }
+        check_array(element_beam, cplx, location,
+                num_responses * num_points * num_pols, status
+        );
+    }
+    check_array(station_beam, cplx, location,
+            num_pols * ((int64_t) index_offset_station_beam + num_points),
+            status
+    );
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
-- 
2.43.0


From 50131f59b5b8346e243177532e30f2ea0bbafcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 19/23] fix: keep slices inside the array they are taken from

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..50fb0a5 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -265,13 +265,16 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        if (slice_shape[i_dim_slice] < 0 ||
+                slice_shape[i_dim_slice] >
+                src->shape[i_dim_src] - slice_offsets[i_dim_src])
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice shape in dimension %d is too large: %d > %d",
                     i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    src->shape[i_dim_src] - slice_offsets[i_dim_src]
             );
             return 0;
         }
-- 
2.43.0


From 100ae7a8dffc0a5945a9e66d3a9517acf36e05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 20/23] fix: do not overwrite a pending error in
 sdp_mem_check_same_shape_at

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 50fb0a5..4c1acf5 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1403,6 +1403,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 5195c1b71660d7d5332acd5d8fa12954a15dc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 21/23] fix: copy and clear arrays with strides element by
 element

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 57 ++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 4c1acf5..ad0ef5f 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,19 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Return the offset in bytes of an element, from its index in C order.
+int64_t sdp_mem_offset_bytes(const sdp_Mem* mem, int64_t index)
+{
+    int64_t offset = 0;
+    for (int32_t i = mem->num_dims - 1; i >= 0; --i)
+    {
+        offset += (index % mem->shape[i]) * mem->stride[i];
+        index /= mem->shape[i];
+    }
+    return offset;
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -317,10 +330,30 @@ sdp_Mem* sdp_mem_create_copy(
 )
 {
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape, src->stride, status
+            src->num_dims, src->shape, 0, status
     );
     sdp_mem_alloc(mem, status);
-    sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
+    if (mem->is_c_contiguous == src->is_c_contiguous)
+    {
+        sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
+    }
+    else if (src->location == SDP_MEM_CPU && location == SDP_MEM_CPU)
+    {
+        if (*status || !mem->data || !src->data) return mem;
+        const int64_t element_size = sdp_mem_type_size(src->type);
+        for (int64_t i = 0; i < src->num_elements; ++i)
+        {
+            memcpy(((char*) (mem->data)) + i * element_size,
+                    ((const char*) (src->data)) + sdp_mem_offset_bytes(src, i),
+                    element_size
+            );
+        }
+    }
+    else if (!*status)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array must be C contiguous");
+    }
     return mem;
 }
 
@@ -328,7 +361,25 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
-    sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
+    if (mem->is_c_contiguous || mem->num_dims == 0)
+    {
+        sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
+    }
+    else if (mem->location == SDP_MEM_CPU)
+    {
+        const int64_t element_size = sdp_mem_type_size(mem->type);
+        for (int64_t i = 0; i < mem->num_elements; ++i)
+        {
+            memset(((char*) (mem->data)) + sdp_mem_offset_bytes(mem, i), 0,
+                    element_size
+            );
+        }
+    }
+    else
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array must be C contiguous");
+    }
 }
 
 
-- 
2.43.0


From d492cb2e82f46b476bd3e8e19c084b539ef1217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 22/23] fix: report a zero-dimensional array as contiguous

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index ad0ef5f..b8ce0c4 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -217,6 +217,7 @@ sdp_Mem* sdp_mem_create_wrapper(
 
     // For Python compatibility, a zero-dimensional tensor is a scalar.
     mem->num_elements = 1;
+    mem->is_c_contiguous = 1;
     if (num_dims == 0) return mem;
 
     // Store shape (and strides, if given; otherwise compute them).
@@ -230,7 +231,6 @@ sdp_Mem* sdp_mem_create_wrapper(
     }
 
     // Check if strides are as expected for a standard contiguous C array.
-    mem->is_c_contiguous = 1;
     int64_t num_elements = 1;
     for (int32_t i = num_dims - 1; i >= 0; --i)
     {
-- 
2.43.0


From 8967889edd914bb0df427faaea5f9849b073ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:00 +0000
Subject: [PATCH 23/23] fix: reject row ranges and arrays that do not match
 when clamping channels

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..786ead3 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -1,11 +1,38 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
+#include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
 
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check that all arrays contain the rows and coordinates to process.
+void check_rows(
+        const sdp_Mem* uvws,
+        const int dim,
+        const int64_t end_row,
+        const sdp_Mem* start_ch_in,
+        const sdp_Mem* end_ch_in,
+        const sdp_Mem* start_ch_out,
+        const sdp_Mem* end_ch_out,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (dim < 0 || dim >= sdp_mem_shape_dim(uvws, 1) ||
+            end_row > sdp_mem_shape_dim(uvws, 0) ||
+            end_row > sdp_mem_shape_dim(start_ch_in, 0) ||
+            end_row > sdp_mem_shape_dim(end_ch_in, 0) ||
+            end_row > sdp_mem_shape_dim(start_ch_out, 0) ||
+            end_row > sdp_mem_shape_dim(end_ch_out, 0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent row range, dimension or array sizes");
+    }
+}
+
+
 template<typename UVW_TYPE>
 void clamp_channels_single(
         const sdp_Mem* uvws,
@@ -32,6 +59,7 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -93,6 +121,7 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -174,6 +203,10 @@ void sdp_gridder_clamp_channels_single(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_rows(uvws, dim, end_row, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
@@ -273,6 +306,10 @@ void sdp_gridder_clamp_channels_uv(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_rows(uvws, 1, end_row, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


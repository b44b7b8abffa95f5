From 6e3ebbcdefb25f8550aea36eedf58881328830d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 01/11] fix: proc_setup_min_surface skipped valid process grids

The divisor test used the largest admissible j (capped by the world size)
in place of the number of ranks left after choosing i, hence grids such as
1 x 3 x 3 on a 1 x 4 x 4 world were never considered.
---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From d78a6fe09c9a6b5843e264fe76f935257b8ec09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 02/11] fix: maximize_overlap truncated the overlap to int

The number of common indexes is a long long, an overlap of 2^31 or more
indexes became negative and no box was selected.
---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From cc282a2133ee4672ac2e18bd6c25fcf5f1656ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 03/11] fix: copy of the input on ranks without the first
 executor

compute_transform() used executor[0] to find the size of the input,
but idle ranks have no executors and backward 2D/3D transforms may have
only executor[1] or executor[2]. The result was a null dereference, or
a skipped copy.
---
 src/heffte_compute_transform.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..2f86f2d 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -12,6 +12,23 @@
 
 namespace heffte {
 
+/*!
+ * \internal
+ * \brief Returns the number of entries in the box of the input, when the first reshape is not active.
+ *
+ * The input box is not changed until the first active reshape and all executors before that use the same box.
+ * An idle rank may have no executors at all.
+ * \endinternal
+ */
+template<typename index>
+size_t count_input(std::array<std::unique_ptr<reshape3d_base<index>>, 4> const &shaper, std::array<executor_base*, 3> const &executor){
+    for(int i=0; i<3; i++){
+        if (shaper[i]) return shaper[i]->size_intput();
+        if (executor[i] != nullptr) return executor[i]->complex_size();
+    }
+    return (shaper[3]) ? shaper[3]->size_intput() : 0;
+}
+
 template<typename location_tag, typename index, typename scalar_type>
 void compute_transform(typename backend::data_manipulator<location_tag>::stream_type stream,
                        int const batch_size,
@@ -57,8 +74,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         if (last == 0){
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
-            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +88,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +110,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
         }
         active_shaper = 1;
     }else{
@@ -214,9 +229,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-        backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+        backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From 663d0d952fdf7a8fa4f4f53d8a5b04e8fca470f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 04/11] fix: batch stride of the complex stages in r2c without
 reshapes

The second and third executors of a batched real-to-complex transform
work with the complex box but used the stride of the real box.
---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 2f86f2d..cd1ea3a 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -170,8 +170,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From 5aa0cb6e1854e6679c2b39a7026aa1f2b3118ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 05/11] fix: 2D and 3D executors ignored the storage order of
 the box

The merged fftw and mkl transforms used the sizes of the dimensions in
the natural order together with strides in the storage order, resulting
in wrong data and out-of-bounds writes when reordering is not used.
---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From b15efa6a6af35fb4d324a5f28a99a1d78fdbc91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 06/11] fix: check the size of the input of the container
 backward transforms

backward_real() and fft3d_r2c::backward() read out of bounds when the
input container was smaller than the outbox, the other container
overloads throw std::invalid_argument.
---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..c771ba7 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..e450e65 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From b74a4c2f6280d86528c1be8087ce4c9a9245fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:08 +0000
Subject: [PATCH 07/11] fix: fftw r2c plans along a dimension with a single
 index

The plans were created with identical (null) arrays, which FFTW treats
as an in-place transform. There is no such plan for size one and
executing the null plan crashes.
---
 include/heffte_backend_fftw.h | 36 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..336b021 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -343,6 +343,18 @@ private:
     mutable std::unique_ptr<plan_fftw<std::complex<double>, direction::backward>> zbackward;
 };
 
+/*!
+ * \ingroup hefftefftw
+ * \brief Returns one of two distinct locations used to create out-of-place plans.
+ *
+ * FFTW treats identical arrays as in-place transforms which cannot be planned for all real-to-complex cases,
+ * e.g., size equal to one. The arrays are not accessed when using FFTW_ESTIMATE.
+ */
+template<typename fftw_type>
+fftw_type* fftw_placeholder(int i){
+    static double location[2][2];
+    return reinterpret_cast<fftw_type*>(location[i]);
+}
 /*!
  * \ingroup hefftefftw
  * \brief Specialization for r2c single precision.
@@ -360,13 +372,13 @@ struct plan_fftw<float, dir>{
      */
     plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
         plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, fftw_placeholder<float>(0), nullptr, stride, rdist,
+                                                   fftw_placeholder<fftwf_complex>(1), nullptr, stride, cdist,
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, fftw_placeholder<fftwf_complex>(0), nullptr, stride, cdist,
+                                                   fftw_placeholder<float>(1), nullptr, stride, rdist,
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -385,13 +397,13 @@ struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
         plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, fftw_placeholder<double>(0), nullptr, stride, rdist,
+                                                   fftw_placeholder<fftw_complex>(1), nullptr, stride, cdist,
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, fftw_placeholder<fftw_complex>(0), nullptr, stride, cdist,
+                                                   fftw_placeholder<double>(1), nullptr, stride, rdist,
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ))
         {}
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From a0034604ccc72ca6d6ee219ac99143ecab2f41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 08/11] fix: failed plan creation in the C API

Options and exceptions other than std::runtime_error crossed the C
interface, and the plan was left dangling (the local copy of the pointer
was set to null).
---
 src/heffte_c.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..0b424c7 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -229,7 +229,10 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
 int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high[3], int const *inbox_order,
                        int const outbox_low[3], int const outbox_high[3], int const *outbox_order,
                        MPI_Comm const comm, heffte_plan_options const *options, heffte_plan *plan){
+    *plan = nullptr;
     if (not heffte::backend_valid_c(backend)) return 1;
+
+    try{
     *plan = new heffte_fft_plan;
     (*plan)->backend_type = backend;
     (*plan)->using_r2c = 0;
@@ -245,7 +248,6 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
-    try{
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -270,9 +272,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -283,7 +285,10 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
                            int const outbox_low[3], int const outbox_high[3], int const *outbox_order,
                            int r2c_direction, MPI_Comm const comm, heffte_plan_options const *options, heffte_plan *plan){
 
+    *plan = nullptr;
     if (not heffte::backend_valid_c(backend)) return 1;
+
+    try{
     *plan = new heffte_fft_plan;
     (*plan)->backend_type = backend;
     (*plan)->using_r2c = 1;
@@ -299,7 +304,6 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
-    try{
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -324,9 +328,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From 44f768eabc6077a0331fa65e136e3ee3020aab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 09/11] fix: heffte_set_default_options left use_gpu_aware
 uninitialized

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 0b424c7..87fa992 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 3ff3956e7d1f2318696d2a407e716eeae52c18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:20 +0000
Subject: [PATCH 10/11] fix: stock factor() missed the squares of primes

Lengths such as 1223^2 were treated as prime and used Rader's algorithm.
---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From cdf4eed746638dcaae2cc20839fe1113756a7804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 11/11] fix: reject mismatched worlds and invalid r2c
 directions with an exception

---
 include/heffte_fft3d_r2c.h | 4 ++--
 src/heffte_plan_logic.cpp  | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e450e65..b602c15 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -76,7 +76,7 @@ public:
     fft3d_r2c(box3d<index> const inbox, box3d<index> const outbox, int r2c_direction, MPI_Comm const comm,
               plan_options const options = default_options<backend_tag>()) :
         fft3d_r2c(plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)), comm){
-        assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
+        if (r2c_direction < 0 or r2c_direction > 2) throw std::invalid_argument("The r2c_direction must be 0, 1 or 2!");
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
     /*!
@@ -88,7 +88,7 @@ public:
         fft3d_r2c(gpu_stream,
                   plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)),
                   comm){
-        assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
+        if (r2c_direction < 0 or r2c_direction > 2) throw std::invalid_argument("The r2c_direction must be 0, 1 or 2!");
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
 
diff --git a/src/heffte_plan_logic.cpp b/src/heffte_plan_logic.cpp
index 84c061c..27d5658 100644
--- a/src/heffte_plan_logic.cpp
+++ b/src/heffte_plan_logic.cpp
@@ -437,11 +437,10 @@ logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_directi
     // perform basic sanity check
     assert( world_complete(boxes.in,  world_in) );
     assert( world_complete(boxes.out, world_out) );
-    if (r2c_direction == -1){
-        assert( world_in == world_out );
-    }else{
-        assert( world_in.r2c(r2c_direction) == world_out );
-    }
+    if (r2c_direction < -1 or r2c_direction > 2)
+        throw std::invalid_argument("The r2c_direction must be 0, 1 or 2!");
+    if (((r2c_direction == -1) ? world_in : world_in.r2c(r2c_direction)) != world_out)
+        throw std::invalid_argument("The input and output boxes do not match!");
     assert( order_is_identical(boxes.in) );
     assert( order_is_identical(boxes.out) );
 
-- 
2.43.0


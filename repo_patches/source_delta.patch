From b1cd3fcd677443ef85d8ba7f3978f0f2701a2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 01/65] fix: Field::set_local_data() did not compile (const
 buffer bound to a non-const pointer)

---
 libraries/plumbing/field_comm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 50ca1d6..696eb21 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1112,7 +1112,7 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
     T *data = (T *)d_malloc(sizeof(T) * lattice->mynode.volume);
     gpuMemcpy(data, buffer.data(), sizeof(T) * lattice->mynode.volume, gpuMemcpyHostToDevice);
 #else
-    T *data = buffer.data();
+    const T *data = buffer.data();
 #endif
 
 #pragma hila novector direct_access(data)
-- 
2.43.0


From 8ffc2c43184b27c6cb362845555d80901b864b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 02/65] fix: antiperiodic boundary in vectorized layout negated
 values crossing subnode boundaries inside the lattice

---
 .../plumbing/backend_vector/field_storage_backend.h      | 5 ++++-
 libraries/plumbing/backend_vector/lattice_vector.h       | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..5dcfb39 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -222,9 +222,12 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                                 t[e + i] = s[e + perm[i]];
                     } else {
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
+                        // only the subnodes at the lattice edge see the antiperiodic boundary,
+                        // the others get the value from the next subnode
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
                             for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                                t[e + i] = vector_lattice->is_edge_subnode(dir, i) ? -s[e + perm[i]]
+                                                                                   : s[e + perm[i]];
 #endif
                     }
                 }
diff --git a/libraries/plumbing/backend_vector/lattice_vector.h b/libraries/plumbing/backend_vector/lattice_vector.h
index 5f15c3e..2621a24 100644
--- a/libraries/plumbing/backend_vector/lattice_vector.h
+++ b/libraries/plumbing/backend_vector/lattice_vector.h
@@ -73,6 +73,15 @@ struct vectorized_lattice_struct {
         return true;
     }
 
+    /// Check if vector lane i belongs to a subnode which is the last one on this node to Direction d
+    bool is_edge_subnode(Direction d, int i) const {
+        Direction ad = abs(d);
+        int edge = is_up_dir(d) ? lattice->mynode.size[ad] - subnode_size[ad] : 0;
+        int offset[vector_size];
+        coordinate_offset[ad].store(offset);
+        return offset[i] == edge;
+    }
+
     /////////////////////////////////////////////////////////////////////////////////////////////
     /// Set up the vectorized lattice:
     /// * Split the lattice and record size and splits
-- 
2.43.0


From c770ec93daabf422455a2f647d1d239b3c1e3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 03/65] fix: antiperiodic boundary sign was lost when reading a
 field at an offset of more than one step

---
 libraries/plumbing/field_comm.h | 38 +++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 696eb21..e83bd2f 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -247,6 +247,27 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         from = &res;
         to = &r1;
     }
+
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    // the intermediate fields must have the boundary conditions of this field; those of
+    // res are restored at the end
+    std::array<hila::bc, NDIM> res_bc;
+    bool set_bc = false;
+    res.check_alloc();
+    r1.check_alloc();
+    foralldir (d) {
+        res_bc[d] = res.get_boundary_condition(d);
+        set_bc = set_bc || res_bc[d] != this->get_boundary_condition(d) ||
+                 this->get_boundary_condition(d) != hila::bc::PERIODIC;
+    }
+    if constexpr (hila::has_unary_minus<T>::value) {
+        if (set_bc) {
+            r1.copy_boundary_condition(*this);
+            res.copy_boundary_condition(*this);
+        }
+    }
+#endif
+
     // and copy initially to "from"
     (*from).shift_from(*this, mdir, par_s);
     // (*from)[par_s] = (*this)[X + mdir];
@@ -271,6 +292,15 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         }
     }
 
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    if constexpr (hila::has_unary_minus<T>::value) {
+        if (set_bc) {
+            foralldir (d)
+                res.set_boundary_condition(d, res_bc[d]);
+        }
+    }
+#endif
+
     return res;
 }
 
@@ -300,6 +330,14 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     fs->shift_buffer.emplace_back();
     fs->shift_buffer.back().par = Parity::none; // flag it new
     fs->shift_buffer.back().offset = v;
+
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    // shifted field is shifted further, it must have the boundary conditions of this field
+    if constexpr (hila::has_unary_minus<T>::value) {
+        fs->shift_buffer.back().f.copy_boundary_condition(*this);
+    }
+#endif
+
     return;
 }
 
-- 
2.43.0


From 26585d3f03530ff65d892875e8ec12560038e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 04/65] fix: lattice setup looped forever when the second
 attempt at dividing the lattice succeeded

---
 libraries/plumbing/setup_layout_generic.cpp | 6 +++---
 libraries/plumbing/setup_layout_vector.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..7d5b0b7 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -71,7 +71,7 @@ void lattice_struct::setup_layout() {
     }
 
     int mdir = 0;
-    bool secondtime = false;
+    bool secondtime = false, fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -129,7 +129,7 @@ void lattice_struct::setup_layout() {
             }
 
         // now check that the div makes sens
-        bool fail = false;
+        fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
             secondtime = true;
@@ -141,7 +141,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..00d3329 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -97,7 +97,7 @@ void lattice_struct::setup_layout() {
     CoordinateVector divisions, subdiv;
 
     int gdir;
-    bool secondtime = false;
+    bool secondtime = false, fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -165,7 +165,7 @@ void lattice_struct::setup_layout() {
 
         // Division done, now check that the div makes sense
 
-        bool fail = false;
+        fail = false;
 
         foralldir (dir)
             if (nodesiz[dir] < 1)
@@ -241,7 +241,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From f1a5988e2f83d52520eed21fb6918398c6288cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 05/65] fix: reflect() left the two middle sites unswapped for
 odd lattice sides

---
 libraries/plumbing/fft_fftw_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 3b80cb1..4f6b9b2 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -290,7 +290,7 @@ inline void hila_fft<cmplx_t>::reflect() {
         }
 
         // reflect
-        for (int j = 1; j < length / 2; j++) {
+        for (int j = 1; j < (length + 1) / 2; j++) {
             std::swap(buf[j], buf[length - j]);
         }
 
-- 
2.43.0


From 15e33162dd112dc728b60943d7d3ac2097735568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 06/65] fix: Field::max() of floating point fields with no
 positive value returned the smallest positive number

---
 libraries/plumbing/reduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..1fc71e5 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -330,14 +330,14 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
     T val = gpu_minmax(is_min, par, loc);
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
     #pragma omp parallel shared(val, loc, is_min)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-- 
2.43.0


From 895bc6ef83197aab5b0ec868dadcc9c286e47e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 07/65] fix: Field::product() did not compile

---
 libraries/plumbing/reduction.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 1fc71e5..e9f3a38 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -297,12 +297,11 @@ template <typename T>
 T Field<T>::product(Parity par, bool allreduce) const {
     static_assert(std::is_arithmetic<T>::value,
                   ".product() reduction only for integer or floating point types");
-    Reduction<T> result;
-    result = 1;
-    result.allreduce(allreduce);
+    T result = 1;
+    hila::set_allreduce(allreduce);
     onsites (par)
         result *= (*this)[X];
-    return result.value();
+    return result;
 }
 
 
-- 
2.43.0


From 2f16d4a2d3bcdb0194e443d49d719d6cd8cc5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 08/65] fix: delayed Reduction used again after value() counted
 the earlier result once per rank

---
 libraries/plumbing/reduction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index e9f3a38..dc4fd04 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -206,8 +206,9 @@ class Reduction {
 
         wait(); // wait for possible ongoing
 
-        // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // add the node values to reduction var: an already reduced or initial value counts
+        // only on rank 0
+        if (hila::myrank() == 0 || (is_delayed_ && delay_is_on))
             val += v;
         else
             val = v;
-- 
2.43.0


From 5e2b3aa48874d0cf453bdbc61007514bf81c2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 09/65] fix: delayed product of a ReductionVector was reduced
 across ranks as a sum

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..43ebc70 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -243,6 +243,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
             reduce_operation(MPI_SUM);
         }
@@ -264,6 +265,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
             reduce_operation(MPI_PROD);
         }
-- 
2.43.0


From a496fc0b951bfd0a3e1c0f5d640295b8906f2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 10/65] fix: assigning to a delayed ReductionVector with a
 pending reduction counted the assigned value once per rank

---
 libraries/plumbing/reductionvector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 43ebc70..2483215 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,16 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = 0;
     }
-- 
2.43.0


From fa001d7d1feb467be58d19b33bfc7eca7be5a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 11/65] fix: product reductions of float and integer fields
 always gave 0 in vectorized loops

---
 libraries/plumbing/backend_vector/defs.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 315bc99..191a0e7 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -250,7 +250,7 @@ inline double reduce_prod(Vec4d v) {
 }
 
 inline double reduce_prod(Vec8f v) {
-    double sum = 0;
+    double sum = 1;
     float store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -258,8 +258,8 @@ inline double reduce_prod(Vec8f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8i v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8i v) {
+    int64_t sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -277,7 +277,7 @@ inline double reduce_prod(Vec8d v) {
 }
 
 inline double reduce_prod(Vec16f v) {
-    double sum = 0;
+    double sum = 1;
     float store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -285,8 +285,8 @@ inline double reduce_prod(Vec16f v) {
     return sum;
 }
 
-inline double reduce_prod(Vec16i v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec16i v) {
+    int64_t sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -294,8 +294,8 @@ inline double reduce_prod(Vec16i v) {
     return sum;
 }
 
-inline double reduce_prod(Vec4q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec4q v) {
+    int64_t sum = 1;
     int64_t store[4];
     v.store(&(store[0]));
     for (int i = 0; i < 4; i++)
@@ -303,8 +303,8 @@ inline double reduce_prod(Vec4q v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8q v) {
+    int64_t sum = 1;
     int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
-- 
2.43.0


From a84b79299f0433ae6bb7c24601e844f1c89f49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 12/65] fix: reduce_sum(Vec8q) stored eight elements in an
 array of four

---
 libraries/plumbing/backend_vector/defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 191a0e7..13f58b1 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -233,7 +233,7 @@ inline int64_t reduce_sum(Vec4q v) {
 
 inline int64_t reduce_sum(Vec8q v) {
     int64_t sum = 0;
-    int64_t store[4];
+    int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
         sum += store[i];
-- 
2.43.0


From b75e0522ae34a06ee2affcca8ab83f4717b28c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 13/65] fix: product reductions in OpenMP loops lost the
 products of all threads

---
 hilapp/src/codegen_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..25cec74 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -151,7 +151,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                         code << "_hila_reduction_sum" << sums;
                         sums++;
                     } else {
-                        code << '+';
+                        code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');
                     }
                     code << ": " << r.reduction_name << ")";
                 }
-- 
2.43.0


From eeecf174837a9db94d5bbf1390a0f98935eb4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 14/65] fix: FFT and reflect with no active directions returned
 uninitialized data

---
 libraries/plumbing/fft.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 84f6058..3f68f00 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -302,6 +302,12 @@ class hila_fft {
         bool first_dir = true;
         Direction prev_dir;
 
+        // nothing to transform: the result is the input
+        if (directions.squarenorm() == 0) {
+            result = input;
+            return;
+        }
+
         result.will_change();
 
         foralldir (dir) {
-- 
2.43.0


From fbb9a7138f705bd4b54b158a1d96b0999bc1e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 15/65] fix: reflect() compiled only for fields of Complex

---
 libraries/plumbing/fft.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 3f68f00..a30c818 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -324,10 +324,11 @@ class hila_fft {
 
                 gather_data();
 
-                if (!only_reflect)
-                    transform();
-                else
+                // reflection works for any element type, the transform only for Complex
+                if (only_reflect)
                     reflect();
+                else if constexpr (hila::is_complex<cmplx_t>::value)
+                    transform();
 
                 scatter_data();
 
-- 
2.43.0


From 6078d28d6b9f294f983c1835fe56f326a7787e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 16/65] fix: k_binning kept bin counts, mean k and bin width of
 earlier parameters

---
 libraries/plumbing/spectraldensity.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index 1a9f5f9..f41f2f3 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -75,6 +75,12 @@ class k_binning {
     std::vector<double> k_avg;
     std::vector<size_t> bin_count;
 
+    // the stored binning info is not valid after the parameters change
+    void clear_bin_info() {
+        k_avg.clear();
+        bin_count.clear();
+    }
+
   public:
     k_binning() {
         par.max = M_PI;
@@ -104,6 +110,7 @@ class k_binning {
         par.bins = n;
         par.bins_set = true;
         par.binwidth = par.max / par.bins;
+        clear_bin_info();
         return *this;
     }
 
@@ -118,7 +125,10 @@ class k_binning {
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
             par.max = par.binwidth * par.bins;
+        } else {
+            par.binwidth = par.max / par.bins;
         }
+        clear_bin_info();
         return *this;
     }
 
@@ -132,6 +142,7 @@ class k_binning {
         par.bins = ceil(par.max / w);
         par.max = par.binwidth * par.bins;
         par.bins_set = false;
+        clear_bin_info();
         return *this;
     }
 
@@ -143,6 +154,7 @@ class k_binning {
     k_binning &power(double p) {
         assert(p > 0);
         par.power = p;
+        clear_bin_info();
         return *this;
     }
 
-- 
2.43.0


From 2d267e9fce2cf9afe5f6363b0069392d503d4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 17/65] fix: read_fields() did not compile

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0


From 499cbc9d786315e1e56ee8262b38028b2ab2985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 18/65] fix: printing of U1 did not compile (ambiguous
 operator<<)

---
 libraries/datatypes/u1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 7980869..80521b9 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -144,7 +144,7 @@ inline Complex<hila::type_mul<T, S>> operator*(const Complex<S> &b, const U1<T>
 /// Stream operator
 template <typename T>
 std::ostream &operator<<(std::ostream &strm, const U1<T> A) {
-    return operator<<(strm, A.phase);
+    return strm << A.phase;
 }
 
 
-- 
2.43.0


From 866300f2eda9a43dcc658d4a1aa2a7a9ca888a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 19/65] fix: config_read() took damaged lattice sizes (zero,
 negative or beyond 32 bits) for valid ones

---
 libraries/plumbing/gaugefield.h     | 2 +-
 libraries/plumbing/plaquettefield.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1484a6f..7775273 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -253,7 +253,7 @@ class GaugeField {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
+                ok = ok && f > 0 && (lattice.size(d) % f == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide)" << lattice.size(d)
diff --git a/libraries/plumbing/plaquettefield.h b/libraries/plumbing/plaquettefield.h
index 371c544..7e0b8d2 100644
--- a/libraries/plumbing/plaquettefield.h
+++ b/libraries/plumbing/plaquettefield.h
@@ -192,7 +192,7 @@ class PlaquetteField {
             foralldir(d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
+                ok = ok && f > 0 && (lattice.size(d) % f == 0);
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide) " << lattice.size(d) << '\n';
-- 
2.43.0


From 5b81a2ba420168ca66b81cdcfd13d28d4228d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 20/65] fix: input: numbers followed by other characters and
 negative unsigned values were read as something else

---
 libraries/plumbing/input.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index b34af85..70fde46 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -499,8 +499,13 @@ class input {
         ss >> val;
         if (ss.fail() || ss.bad())
             return false;
-        else
-            return true;
+        // the whole token must be used, e.g. "1.5" or "1e3" is not an int
+        if (ss.peek() != std::istringstream::traits_type::eof())
+            return false;
+        // "-1" would wrap around
+        if (std::is_unsigned<T>::value && s[0] == '-')
+            return false;
+        return true;
     }
 
     bool is_value(const std::string &s, std::string &val);
-- 
2.43.0


From 237ea436a176a6ead2ebb3121e46401735668712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 21/65] fix: input: complex values in the documented form (0.4,
 0.5) were refused

---
 libraries/plumbing/input.cpp | 21 +++++++++++++++++++++
 libraries/plumbing/input.h   |  8 +++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 173aa79..d0e18f0 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -276,6 +276,27 @@ bool input::get_token(std::string &tok) {
     return false;
 }
 
+// as above, but the token ends also at the delimiter character
+
+bool input::get_token(std::string &tok, char delimiter) {
+    if (peek_token(tok)) {
+        tok = tok.substr(0, tok.find(delimiter));
+        lb_start += tok.size();
+        return true;
+    }
+    return false;
+}
+
+// match_char consumes the next non-whitespace character if it is c
+
+bool input::match_char(char c) {
+    if (remove_whitespace() && linebuffer[lb_start] == c) {
+        lb_start++;
+        return true;
+    }
+    return false;
+}
+
 // match_token returns true and consumes the token if it matches the argument
 
 bool input::match_token(const std::string &tok) {
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index 70fde46..2706f1e 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -344,11 +344,11 @@ class input {
 
         if (hila::myrank() == 0 && no_error) {
             std::string tok;
-            T re, im;
+            T re = 0, im = 0;
 
             no_error =
-                (match_token("(") && get_token(tok) && is_value(tok, re) && match_token(",") &&
-                 get_token(tok) && is_value(tok, im) && match_token(")"));
+                (match_char('(') && get_token(tok) && is_value(tok, re) && match_char(',') &&
+                 get_token(tok, ')') && is_value(tok, im) && match_char(')'));
             if (!no_error && speaking) {
                 hila::out << "Error: expecting complex value '(re,im)' after '" << label << "'\n";
             }
@@ -487,6 +487,8 @@ class input {
 
     bool peek_token(std::string &tok);
     bool get_token(std::string &tok);
+    bool get_token(std::string &tok, char delimiter);
+    bool match_char(char c);
     bool match_token(const std::string &tok);
 
     void scan_cmdline(const std::string &key, int &end_of_key);
-- 
2.43.0


From db18b5e39839ea1f6e7ecc5ea0a89e459006bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 22/65] fix: input: the rest of the last line of a closed file
 was read as the beginning of the next one

---
 libraries/plumbing/input.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index d0e18f0..e8df1cf 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -30,6 +30,11 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
 
     file_number = ++input_file_count;
     cmdline_p.clear();
+    if (!is_initialized) {
+        // nothing is left over from an earlier file
+        linebuffer.clear();
+        lb_start = 0;
+    }
 
     if (use_cmdline && input_file_count == 1 && hila::cmdline.flag_present("-i")) {
         // input_file_count guarantees this is done only 1st time
-- 
2.43.0


From 0ef58d7e4923d1de103940e564f12d784b8698fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 23/65] fix: asking about an undeclared command line flag must
 not declare it

---
 libraries/plumbing/cmdline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index eed6ff2..8fed709 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -74,11 +74,11 @@ void cmdlinearguments::initialise_args(int argc0, char **argv0) {
 /// @return vector of arguments
 ////////////////////////////////////////////////////////////////////////////////
 strvec cmdlinearguments::values(const std::string &flag) {
-    strvec valvec = argmap[flag].val_strings;
     if (argmap.count(flag) == 0) {
         hila::out0 << "Flag '" << flag << "' is not recognized!\n";
         quit_with_help();
     }
+    strvec valvec = argmap[flag].val_strings;
 
     if (valvec.size() == 0) {
         hila::out0 << "\n\nFlag '" << flag << "' has no entries"
@@ -274,7 +274,7 @@ int cmdlinearguments::flag_set(const char *flag) {
 /// @return Boolean indicating the statement.
 ////////////////////////////////////////////////////////////////////////////////
 bool cmdlinearguments::flag_present(const char *flag) {
-    return argmap[flag].present;
+    return argmap.count(flag) > 0 && argmap[flag].present;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f1e45b5d96044066c6ab94a11d58a3dcb5ef2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 24/65] fix: number of arguments of a flag is checked also at
 the end of the command line

---
 libraries/plumbing/cmdline.cpp    | 15 +++------------
 libraries/plumbing/initialize.cpp |  2 +-
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index 8fed709..73b49b7 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -147,30 +147,21 @@ strvec cmdlinearguments::read_arg_vector(const char *flag) {
             // options
             *(p_ind++) = 1;
             i++;
-            if (i < myargc)
-                p = myargv[i];
-            else {
-                break;
-            }
             // Check if the string is a valid input
             // (Not of type ^-[a-zA-Z].*)
             // and push into vector uargs
-            while (!std::regex_match(p, forbidden_user_input)) {
+            while (i < myargc && !std::regex_match(myargv[i], forbidden_user_input)) {
                 *(p_ind++) = 1;
-                uargs.push_back(std::string(p));
+                uargs.push_back(std::string(myargv[i]));
                 i++;
                 n++;
-                if (i < myargc)
-                    p = myargv[i];
-                else
-                    break;
             }
 
             // If we stopped on another 'flag' for whatever
             // reason, set the current index to be removed
             // and compensate for the for loop increase in
             // i and p_ind
-            if (std::strcmp(p, flag) == 0) {
+            if (i < myargc && std::strcmp(myargv[i], flag) == 0) {
                 *(p_ind--) = 1;
                 i--;
             }
diff --git a/libraries/plumbing/initialize.cpp b/libraries/plumbing/initialize.cpp
index cbc6a2b..e8556fb 100644
--- a/libraries/plumbing/initialize.cpp
+++ b/libraries/plumbing/initialize.cpp
@@ -120,7 +120,7 @@ void hila::initialize(int argc, char **argv) {
     hila::cmdline.add_flag("-check",
                            "check input & layout with <num> nodes & exit.\nDoes not initialize MPI "
                            "or GPUs (do not use mpirun)\n",
-                           "<num>", 1);
+                           "<num>"); // <num> can be left out
     hila::cmdline.add_flag("-partitions",
                            "number of partitioned lattice streams.\nBy default, creates "
                            "directories 'partitionN' for each stream if these don't exist.\nEnter "
-- 
2.43.0


From d955afe4e0fe8bbb1d1262bdf1e5cf29cf51b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 25/65] fix: time limit with unrecognized trailing text is
 refused

---
 libraries/plumbing/timing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index 6f5abf0..64456bc 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -241,10 +241,12 @@ void setup_timelimit(const std::string &timestr) {
             // use short circuiting of || here to stop parsing on 1st match
             // zeroing the incorrectly read time variables in the same chain
             int nargs = 5;
-            if (std::sscanf(str, "%u-%u:%u:%u", &d, &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u:%u", &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u", &m, &s) == --nargs ||
-                std::sscanf(str, "%u", &s) == --nargs) {
+            int end = 0; // number of characters used, set at successful matches only
+            if ((std::sscanf(str, "%u-%u:%u:%u%n", &d, &h, &m, &s, &end) == --nargs ||
+                 std::sscanf(str, "%u:%u:%u%n", &h, &m, &s, &end) == --nargs ||
+                 std::sscanf(str, "%u:%u%n", &m, &s, &end) == --nargs ||
+                 std::sscanf(str, "%u%n", &s, &end) == --nargs) &&
+                str[end] == '\0') {
 
                 if (nargs < 4) d = 0;
                 if (nargs < 3) h = 0;
-- 
2.43.0


From 5ba4d340b627513344be08f9de1f473223d313c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 26/65] fix: help of a command line flag declared with empty
 help text

---
 libraries/plumbing/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index 73b49b7..0fc668e 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -239,7 +239,7 @@ void cmdlinearguments::print_help() {
         const std::string &aux = p.second.aux;
         strvec help_vec = parse_help(help);
         hila::out0 << "  " << flag << " " << aux << std::setw(22 - flag.length() - aux.length() - 1)
-                   << ": " << help_vec[0] << "\n";
+                   << ": " << (help_vec.empty() ? "" : help_vec[0]) << "\n";
         for (int i = 1; i < help_vec.size(); i++) {
             hila::out0 << padding << help_vec[i] << "\n";
         }
-- 
2.43.0


From e8071ec06aeb1655dc80e6b17c3f2d776f04da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 27/65] fix: product of DiagonalMatrix and a vector or a
 rectangular matrix had the type of a square matrix, left partly uninitialized

---
 libraries/datatypes/diagonal_matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index ad3059a..262a45a 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -773,7 +773,7 @@ inline Rtype operator-(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 // multiply by matrix
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 
     constexpr int mr = Mtype::rows();
@@ -789,7 +789,7 @@ inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 }
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
@@ -806,7 +806,7 @@ inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
 // division
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), Mtype::columns(), T>, Mtype>>
 inline Rtype operator/(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
-- 
2.43.0


From 85c9eccdc0628e5c65cca89f8bfedfde87c05e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 28/65] fix: DiagonalMatrix::transpose() did not compile

---
 libraries/datatypes/diagonal_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 262a45a..c1df88e 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -269,7 +269,7 @@ class DiagonalMatrix {
     /**
      * @brief transpose - leaves diagonal matrix as is
      */
-    DiagonalMatrix &transpose() const {
+    const DiagonalMatrix &transpose() const {
         return *this;
     }
 
-- 
2.43.0


From d45d7cf2ac9a9fe8147feae2b7414ad3850546fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 29/65] fix: compound assignment of a matrix with its own
 element (a += a.e(1,1)) used the already changed element

---
 libraries/datatypes/diagonal_matrix.h | 10 +++++-----
 libraries/datatypes/matrix.h          |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index c1df88e..60f0222 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -154,7 +154,7 @@ class DiagonalMatrix {
     // Assign from "scalar"
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    inline DiagonalMatrix &operator=(const S &rhs) out_only & {
+    inline DiagonalMatrix &operator=(const S rhs) out_only & {
 
         for (int i = 0; i < n; i++) {
             c[i] = rhs;
@@ -187,7 +187,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator+=(const S &rhs) & {
+    DiagonalMatrix &operator+=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] += rhs;
         }
@@ -206,7 +206,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator-=(const S &rhs) & {
+    DiagonalMatrix &operator-=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] -= rhs;
         }
@@ -227,7 +227,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_mul<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator*=(const S &rhs) & {
+    DiagonalMatrix &operator*=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] *= rhs;
         }
@@ -248,7 +248,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_div<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator/=(const S &rhs) & {
+    DiagonalMatrix &operator/=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] /= rhs;
         }
diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index a049a20..d3b5011 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -810,7 +810,7 @@ class Matrix_t {
      */
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_plus<T, S>>::value, int> = 0>
-    auto &operator+=(const S &rhs) & {
+    auto &operator+=(const S rhs) & {
 
         static_assert(n == m, "rows != columns : scalar addition possible for square matrix only!");
 
-- 
2.43.0


From 0830565937b48aaabf63b797515a3dd24d64fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 30/65] fix: division of a complex number by its own real part
 divided the imaginary part by the changed value

---
 libraries/datatypes/cmplx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index aa6869a..b626ebd 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -503,7 +503,7 @@ class Complex {
      * @return Complex<T>&
      */
     template <typename A, std::enable_if_t<hila::is_assignable<Complex<T> &, A>::value, int> = 0>
-    inline Complex<T> &operator/=(const A &lhs) & {
+    inline Complex<T> &operator/=(const A lhs) & {
         if constexpr (hila::is_complex<A>::value) {
 
             T m = 1.0 / max(::abs(lhs.re), ::abs(lhs.im));
-- 
2.43.0


From 4e7efed6e7f2b4d15d7b3e2b7beccf2a9c187107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 31/65] fix: chsexp() used the negative of the characteristic
 polynomial, the exponential was wrong for every matrix

---
 libraries/datatypes/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index d3b5011..c2ee68f 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -4352,13 +4352,13 @@ inline Matrix_t<n, m, T, MT> chsexp(const Matrix_t<n, m, T, MT> &mat) {
     int ip = 0;
     tB[ip] = 1.;
     T tc = trace(mat);
-    crpl[n - 1] = tc;
+    crpl[n - 1] = -tc;
     tB[1 - ip] = mat;
     for (k = 2; k <= n; ++k) {
         tB[1 - ip] -= tc;
         mult(mat, tB[1 - ip], tB[ip]);
         tc = trace(tB[ip]) / k;
-        crpl[n - k] = tc;
+        crpl[n - k] = -tc;
         ip = 1 - ip;
     }
 
-- 
2.43.0


From 5e2fefb504872782ac9aaf210916c7bea34d03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 32/65] fix: altexp() stopped when two partial sums had the
 same norm: altexp of -2 times one was one

---
 libraries/datatypes/matrix.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index c2ee68f..348b457 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -3323,17 +3323,16 @@ template <int n, int m, typename T, typename MT, typename atype = hila::arithmet
 inline Matrix_t<n, m, T, MT> altexp(const Matrix_t<n, m, T, MT> &mat, out_only int &niter) {
     static_assert(n == m, "exp() only for square matrices");
     atype one = 1.0;
-    Matrix_t<n, m, T, MT> r = mat, mpow = mat;
+    Matrix_t<n, m, T, MT> r = mat, mpow = mat, rold;
     r += one;
-    atype orsqnorm, rsqnorm = r.squarenorm();
     niter = 1;
     for (int k = 2; k < n * 15; ++k) {
         mpow *= mat;
         mpow *= (one / k);
+        rold = r;
         r += mpow;
-        orsqnorm = rsqnorm;
-        rsqnorm = r.squarenorm();
-        if (rsqnorm == orsqnorm) {
+        rold -= r;
+        if (rold.squarenorm() == 0) {
             niter = k;
             break;
         }
@@ -3356,16 +3355,15 @@ template <int n, int m, typename T, typename MT, typename atype = hila::arithmet
 inline Matrix_t<n, m, T, MT> altexp(const Matrix_t<n, m, T, MT> &mat) {
     static_assert(n == m, "exp() only for square matrices");
     atype one = 1.0;
-    Matrix_t<n, m, T, MT> r = mat, mpow = mat;
+    Matrix_t<n, m, T, MT> r = mat, mpow = mat, rold;
     r += one;
-    atype orsqnorm, rsqnorm = r.squarenorm();
     for (int k = 2; k < n * 15; ++k) {
         mpow *= mat;
         mpow *= (one / k);
+        rold = r;
         r += mpow;
-        orsqnorm = rsqnorm;
-        rsqnorm = r.squarenorm();
-        if (rsqnorm == orsqnorm) {
+        rold -= r;
+        if (rold.squarenorm() == 0) {
             break;
         }
     }
-- 
2.43.0


From 4f156af72797c8b0d7a043465edc9ca3915fee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 33/65] fix: derivatives of chexp(), mult_chexp() and chexpk()
 lost terms for (nearly) nilpotent matrices, where the exponential itself
 converges at once

---
 libraries/datatypes/matrix.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index 348b457..fb3b534 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -3717,8 +3717,10 @@ inline void chexp(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T, M
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
+        if (ttwpf == twpf && j > 2 * n - 2) {
+            // terminate iteration when numeric value of twpf stops changing, but not before
+            // the derivative has got its terms up to mat^(2n-2): those do not vanish when
+            // mat^n does
             break;
         }
 
@@ -3946,8 +3948,10 @@ inline void mult_chexp(const Matrix_t<n, m, T, MT> &mat, const Matrix_t<n, m, T,
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
+        if (ttwpf == twpf && j > 2 * n - 2) {
+            // terminate iteration when numeric value of twpf stops changing, but not before
+            // the derivative has got its terms up to mat^(2n-2): those do not vanish when
+            // mat^n does
             break;
         }
 
@@ -4167,8 +4171,10 @@ inline void chexpk(const Matrix_t<n, m, T, MT> &mat, out_only Matrix_t<n, m, T,
         }
         ttwpf = twpf;
         twpf += wpf * rss;
-        if (ttwpf == twpf) {
-            // terminate iteration when numeric value of twpf stops changing
+        if (ttwpf == twpf && j > 2 * n - 2) {
+            // terminate iteration when numeric value of twpf stops changing, but not before
+            // the derivative has got its terms up to mat^(2n-2): those do not vanish when
+            // mat^n does
             jmax = j;
             break;
         }
-- 
2.43.0


From 7f9d91d5614870c9ee036cfab67b4d7467730cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 34/65] fix: det() of an integer matrix of size 5 or more used
 LU with integer divisions

---
 libraries/datatypes/matrix_linalg.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 37c2f95..2aa23e4 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -851,14 +851,16 @@ T Matrix_t<n, m, T, Mtype>::det_lu() const {
 
 
 /**
- * @brief determinant function - if matrix size is < 5, use Laplace, otherwise LU
+ * @brief determinant function - if matrix size is < 5 or elements are integers, use Laplace,
+ * otherwise LU
  */
 
 #pragma hila novector
 template <int n, int m, typename T, typename Mtype>
 T Matrix_t<n, m, T, Mtype>::det() const {
     static_assert(n == m, "Determinant only for square matrix");
-    if constexpr (n < 5)
+    // LU needs divisions, which integers do not have
+    if constexpr (n < 5 || std::is_integral<T>::value)
         return this->det_laplace();
     else
         return this->det_lu();
-- 
2.43.0


From 8616e00280fd17524e981c878c1eeb13e305befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 35/65] fix: svd() read an uninitialized column norm: it was
 declared inside the loop which reuses it

---
 libraries/datatypes/matrix_linalg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 2aa23e4..1f4f437 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -484,8 +484,7 @@ int Matrix_t<n, m, T, Mtype>::svd(out_only Matrix_t<n, n, Mt, MT> &_U,
     int rot;
     SquareMatrix<n, Dtype> M, V;
     DiagonalMatrix<n, double> S;
-    Dtype Bpq;
-    double Bpp, Bqq;
+    double Bpp = 0;
 
     // Do it in double prec; copy fields
     V = 1;
@@ -500,7 +499,6 @@ int Matrix_t<n, m, T, Mtype>::svd(out_only Matrix_t<n, n, Mt, MT> &_U,
             Vector<n, Dtype> colp;
             for (int q = p + 1; q < n; q++) {
 
-                double Bpp;
                 if (need_pp) {
                     colp = M.column(p);
                     Bpp = colp.squarenorm();
-- 
2.43.0


From 902820c9d7abb2ad17875552e1ccac46c272ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 36/65] fix: svd() and svd_pivot() of a singular matrix
 returned NaN or linearly dependent columns in U

---
 libraries/datatypes/matrix_linalg.h | 72 +++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 1f4f437..a0ae469 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -153,6 +153,66 @@ GivensMatrix<Dtype> diagonalize_2x2(const double mpp, const double mqq, const Dt
 }
 
 
+/** @internal Last step of singular value decomposition: divide M = U S to unitary U (left in M)
+ *  and column norms S.
+ *  If the matrix is singular, some of the columns are zero or rounding noise. These are orthogonalized
+ *  with respect to other columns, and if nothing remains, substituted by other orthogonal vectors.
+ */
+
+template <int n, typename Dtype>
+inline void normalize_svd_columns(SquareMatrix<n, Dtype> &M, DiagonalMatrix<n, double> &S) {
+
+    constexpr double eps = 2.22e-16;
+    bool done[n];
+    double smax = 0;
+
+    for (int i = 0; i < n; i++) {
+        S.e(i) = M.column(i).norm();
+        if (S.e(i) > smax)
+            smax = S.e(i);
+    }
+
+    for (int i = 0; i < n; i++) {
+        done[i] = (S.e(i) > n * eps * smax);
+        if (done[i])
+            M.set_column(i, M.column(i) / S.e(i));
+    }
+
+    for (int i = 0; i < n; i++) {
+        // try first the column itself, then unit vectors
+        for (int t = -1; t < n && !done[i]; t++) {
+            Vector<n, Dtype> col;
+            if (t >= 0) {
+                col = 0;
+                col.e(t) = 1;
+            } else if (S.e(i) > 0) {
+                col = M.column(i) / S.e(i);
+            } else {
+                continue;
+            }
+
+            // orthogonalize, second time because of rounding errors
+            for (int rep = 0; rep < 2; rep++) {
+                for (int j = 0; j < n; j++) {
+                    if (done[j]) {
+                        Vector<n, Dtype> colj = M.column(j);
+                        col -= colj * colj.dot(col);
+                    }
+                }
+                // squared norm of at least one of the unit vectors is larger than 1/(2n)
+                double sq = col.squarenorm();
+                if (sq * 2 * n < 1)
+                    break;
+                col /= sqrt(sq);
+                if (rep == 1) {
+                    M.set_column(i, col);
+                    done[i] = true;
+                }
+            }
+        }
+    }
+}
+
 } // namespace hila
 
 /**
@@ -406,11 +466,7 @@ int Matrix_t<n, m, T, Mtype>::svd_pivot(out_only Matrix_t<n, n, Mt, MT> &_U,
 
     // Now M = U S. Normalize columns
 
-    for (int i = 0; i < n; i++) {
-        auto col = M.column(i);
-        S.e(i) = col.norm();
-        M.set_column(i, col / S.e(i));
-    }
+    hila::normalize_svd_columns(M, S);
 
     if (sorted == hila::sort::unsorted) {
 
@@ -529,11 +585,7 @@ int Matrix_t<n, m, T, Mtype>::svd(out_only Matrix_t<n, n, Mt, MT> &_U,
 
     // Now M = U S. Normalize columns
 
-    for (int i = 0; i < n; i++) {
-        auto col = M.column(i);
-        S.e(i) = col.norm();
-        M.set_column(i, col / S.e(i));
-    }
+    hila::normalize_svd_columns(M, S);
 
     if (sorted == hila::sort::unsorted) {
 
-- 
2.43.0


From 8bb862b7d6aa3cc7a292f536b76b210c94f1c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 37/65] fix: svd_pivot() stopped when only the largest columns
 were orthogonal, U was off by 1e-8 with singular values of very different
 size

---
 libraries/datatypes/matrix_linalg.h | 42 ++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index a0ae469..9c40905 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -28,6 +28,29 @@ inline double find_largest_offdiag(const SquareMatrix<n, Mtype> &M, int &p, int
 }
 
 
+/// @internal Find the offdiag element of Gram matrix which is largest in comparison with the
+/// diagonals, i.e. columns p,q with the largest |cos(angle)|. Return |cos|
+
+template <int n, typename Mtype>
+inline double find_largest_gram_offdiag(const SquareMatrix<n, Mtype> &B, int &p, int &q) {
+    double cos2 = -1; // guarantees a result for trivial matrix
+
+    for (int i = 0; i < n - 1; i++) {
+        for (int j = i + 1; j < n; j++) {
+            double t = ::real(B.e(i, i)) * ::real(B.e(j, j));
+            if (t > 0)
+                t = ::squarenorm(B.e(i, j)) / t;
+            if (cos2 < t) {
+                cos2 = t;
+                p = i;
+                q = j;
+            }
+        }
+    }
+    return ::sqrt(cos2);
+}
+
+
 /** @internal GivensMatrix is a support class for 2x2 rotations, in SU(2)
  *
  *  Matrix is  | c    s |
@@ -381,7 +404,7 @@ hila::eigen_result<Mtype> Matrix_t<n, m, T, Mtype>::eigen_hermitean(enum hila::s
  * - U = V = 1
  * - Compute Gram matrix B = A^* A.  B is Hermitean, with B_ii >= 0.
  * - Loop:
- *   - Find largest B_ij, j > i   - full pivoting
+ *   - Find largest |B_ij|^2 / (B_ii B_jj), j > i   - full pivoting
  *        if |B_ij|^2 <= tol * B_ii B_jj we're done
  *   - find J to diagonalize J^* [ B_ii B_ij ] J = diag(D_ii, D_jj)
  *                               [ B_ji B_jj ]
@@ -432,10 +455,10 @@ int Matrix_t<n, m, T, Mtype>::svd_pivot(out_only Matrix_t<n, n, Mt, MT> &_U,
 
         /* find the largest element */
         int p, q;
-        double abs_pq = hila::find_largest_offdiag(B, p, q);
+        double cos_pq = hila::find_largest_gram_offdiag(B, p, q);
 
         // check if we're done - only very small off-diags
-        if (abs_pq <= eps * sqrt(::abs(::real(B.e(p, p)) * ::real(B.e(q, q)))))
+        if (cos_pq <= eps)
             break;
 
         auto P = hila::diagonalize_2x2(::real(B.e(p, p)), ::real(B.e(q, q)), B.e(p, q));
@@ -455,13 +478,14 @@ int Matrix_t<n, m, T, Mtype>::svd_pivot(out_only Matrix_t<n, n, Mt, MT> &_U,
         }
         col = M.column(q);
         for (int i = 0; i < n; i++) {
-            if (i != p) {
-                B.e(q, i) = col.dot(M.column(i));
-                B.e(i, q) = ::conj(B.e(q, i));
-            }
+            B.e(q, i) = col.dot(M.column(i));
+            B.e(i, q) = ::conj(B.e(q, i));
+        }
+        // one rotation is enough, unless the norms of the columns are very different
+        if (::abs(B.e(p, q)) <= n * eps * sqrt(::real(B.e(p, p)) * ::real(B.e(q, q)))) {
+            B.e(q, p) = 0;
+            B.e(p, q) = 0;
         }
-        B.e(q, p) = 0;
-        B.e(p, q) = 0;
     }
 
     // Now M = U S. Normalize columns
-- 
2.43.0


From 1583d243f1f7db4922f8804f86559af774ba2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 38/65] fix: svd() of a singular matrix could divide by an
 underflown element and return NaN in V

---
 libraries/datatypes/matrix_linalg.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/matrix_linalg.h b/libraries/datatypes/matrix_linalg.h
index 9c40905..d8ff8f3 100644
--- a/libraries/datatypes/matrix_linalg.h
+++ b/libraries/datatypes/matrix_linalg.h
@@ -160,17 +160,27 @@ template <typename Dtype>
 GivensMatrix<Dtype> diagonalize_2x2(const double mpp, const double mqq, const Dtype mpq) {
 
     GivensMatrix<Dtype> res;
-    double mpq2 = squarenorm(mpq);
+
+    // Scale the elements: squares of very small numbers (columns of a singular matrix in svd)
+    // underflow
+    double scale = ::abs(mqq - mpp) + ::abs(::real(mpq)) + ::abs(::imag(mpq));
+    if (scale == 0.0) {
+        res.c = 1.0;
+        res.s = 0;
+        return res;
+    }
+    Dtype m = mpq / scale;
+    double mpq2 = squarenorm(m);
 
     // leave / 2|mpq| away, avoid divby0
-    double a = (mqq - mpp);
+    double a = (mqq - mpp) / scale;
 
     // now t is above t / |mpq|
     double t = 2.0 / (abs(a) + sqrt(a * a + 4 * mpq2));
     if (a < 0.0)
         t = -t;
     res.c = 1.0 / sqrt(mpq2 * t * t + 1.0);
-    res.s = mpq * (t * res.c);
+    res.s = m * (t * res.c);
 
     return res;
 }
-- 
2.43.0


From 17820f584be3c66e6035cff45a9bd17da604ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 39/65] fix: U1 * U1 multiplies the elements

---
 libraries/datatypes/u1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 80521b9..c835c43 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -119,7 +119,7 @@ inline T imag(const U1<T> arg) {
 /// and U1*U1
 template <typename T>
 inline U1<T> operator*(U1<T> a, const U1<T> b) {
-    a += b;
+    a *= b;
     return a;
 }
 
-- 
2.43.0


From 22c9636525f9fceb51621d20bd8ee71eb38febce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 40/65] fix: SU2::exp() scales the vector part of the matrix,
 not uninitialised memory

---
 libraries/datatypes/su2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index f166fc6..1fe7d37 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -246,9 +246,9 @@ class SU2 {
         T ed = ::exp(d);
         T sr = ed * ::sin(r) / r;
         ret.d = ed * ::cos(r);
-        ret.a *= sr;
-        ret.b *= sr;
-        ret.c *= sr;
+        ret.a = sr * a;
+        ret.b = sr * b;
+        ret.c = sr * c;
         return ret;
     }
 
-- 
2.43.0


From 859ed4b3d4a9537913ebd09833efd10a3b3705c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 41/65] fix: SU2::log() stays accurate close to +-1

---
 libraries/datatypes/su2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index 1fe7d37..0a2da9b 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -263,7 +263,8 @@ class SU2 {
             ret = 0;
             return ret;
         }
-        r = ::acos(d) / r;
+        // acos(d) would lose accuracy near d = +-1, and is NaN if rounding makes |d| > 1
+        r = ::atan2(r, d) / r;
         // factor 2 for the algebra
         ret.a = 2.0 * r * this->a;
         ret.b = 2.0 * r * this->b;
-- 
2.43.0


From 207b7c243f6949129ccd64a6a51b9554410e6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 42/65] fix: SU2 assignment from an initializer list returns
 *this

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index 0a2da9b..dddea9b 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -120,6 +120,7 @@ class SU2 {
         b = *(it++);
         c = *(it++);
         d = *(it);
+        return *this;
     }
 #pragma hila loop_function
     /// assign from 'scalar'
-- 
2.43.0


From 3f2013721513c3dd1e527caa1181632920e7c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 43/65] fix: loops using exp() of the SU2 algebra compile in
 AVX builds

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index dddea9b..52b5bbe 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -564,6 +564,7 @@ class Algebra<SU2<T>> {
         return ret * 0.5; // factor of 1/2 from normalization, $\lambda_a = 1/2 \sigma_a$
     }
     /// SU2 Algebra $exp( E ) = exp( i 1/2 a_n\sigma_n )$ , returns SU2
+    #pragma hila novector
     inline SU2<T> exp() const {
         // $U = exp(E) = (cos(r) + sin(r)/r *(a i\sigma_1 + b i\sigma_2 + c i\sigma_3))$
         // r = sqrt(a^2+b^2+c^2)
-- 
2.43.0


From 801ea6779e25d1a3b4cd31427e43e7ed07312766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 44/65] fix: project_to_algebra_bilinear(w[][]) contracts
 w[k][l] with lambda[l][k], as documented

---
 libraries/datatypes/sun_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/sun_matrix.h b/libraries/datatypes/sun_matrix.h
index 2f82160..b896589 100644
--- a/libraries/datatypes/sun_matrix.h
+++ b/libraries/datatypes/sun_matrix.h
@@ -716,7 +716,7 @@ void project_to_algebra_bilinear(const MT (&w)[N][N],
             for (auto el1 = gen1.c; el1 != gen1.c + gen1.size; ++el1) {
                 for (auto el2 = gen2.c; el2 != gen2.c + gen2.size; ++el2) {
                     temp +=
-                        real(el1->val * w[el2->ind1][el2->ind2].e(el1->ind2, el1->ind1) * el2->val);
+                        real(el1->val * w[el2->ind2][el2->ind1].e(el1->ind2, el1->ind1) * el2->val);
                 }
             }
             omat.e(i1, i2) = -2.0 * temp;
-- 
2.43.0


From ee908486073313e240419416d60c064181633d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 45/65] fix: OpenMP reductions of class type start the threads'
 private sums from zero

---
 hilapp/src/codegen_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 25cec74..0cdf411 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -134,7 +134,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                 if (r.reduction_type != reduction::NONE &&
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
-                         << r.type << ":omp_out += omp_in)\n";
+                         << r.type << ":omp_out += omp_in) initializer(omp_priv = 0)\n";
                     sums++;
                 }
             }
-- 
2.43.0


From 9b45d3958a706dd8b5b272f7090f8519e1750969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 46/65] fix: ExtendedPrecision times integers of 2^30 and above

---
 libraries/datatypes/extended.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index 0a47936..d4bed9b 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -133,13 +133,16 @@ class ExtendedPrecision {
         if (rhs == 0) {
             *this = 0;
         } else {
+            // use unsigned 64-bit arithmetics: the absolute value and the powers of 2 below do not
+            // necessarily fit in T
             bool negative = (!std::is_unsigned<T>::value && (rhs < 0));
+            uint64_t factor = static_cast<uint64_t>(rhs);
             if (negative)
-                rhs = -rhs;
+                factor = -factor;
 
-            T mult = 1;
-            while (rhs % 2 == 0) {
-                rhs /= 2;
+            uint64_t mult = 1;
+            while (factor % 2 == 0) {
+                factor /= 2;
                 mult *= 2;
             }
 
@@ -150,11 +153,11 @@ class ExtendedPrecision {
 
             auto a = *this;
             // the rest is done by addition
-            // we add a rhs-1 times to *this, multiplying it by rhs
-            // in any case, factorize rhs as 2^n + 2^m + .. + 1  (rhs is odd)
-            while (rhs > 1) {
+            // we add a factor-1 times to *this, multiplying it by factor
+            // in any case, factorize factor as 2^n + 2^m + .. + 1  (factor is odd)
+            while (factor > 1) {
                 mult = 1;
-                while (2 * mult < rhs) {
+                while (mult <= (factor - 1) / 2) {
                     mult *= 2;
                 }
                 ExtendedPrecision b;
@@ -164,7 +167,7 @@ class ExtendedPrecision {
                 b.compensation2 = a.compensation2 * mult;
 
                 *this += b;
-                rhs -= mult;
+                factor -= mult;
             }
             if (negative) {
                 this->value = -this->value;
-- 
2.43.0


From 94ed6e9b6346794959c190d51e75c950848d37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 47/65] fix: subtracting an unsigned integer from
 ExtendedPrecision

---
 libraries/datatypes/extended.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index d4bed9b..6acabd5 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -121,7 +121,8 @@ class ExtendedPrecision {
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
     inline const ExtendedPrecision &operator-=(const T &rhs) {
-        return *this += -rhs;
+        // convert first, unsigned -rhs would wrap
+        return *this += -static_cast<double>(rhs);
     }
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
@@ -235,7 +236,8 @@ inline ExtendedPrecision operator+(ExtendedPrecision a, const ExtendedPrecision
 // -
 template <typename A, typename B, std::enable_if_t<hila::AorB_extended<A, B>::value, int> = 0>
 inline ExtendedPrecision operator-(const A &a, const B &b) {
-    return a + (-b);
+    // convert first, unsigned -b would wrap
+    return ExtendedPrecision(a) + (-ExtendedPrecision(b));
 }
 
 // *
-- 
2.43.0


From 8973dbebf3d551549058ffda9c435060b0948396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 48/65] fix: a conditional assignment in a site loop with a
 site-dependent index kept an uninitialised value

---
 hilapp/src/toplevelvisitor.cpp | 38 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..3754283 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1368,30 +1368,30 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
         TraverseStmt(s);
 
         // check also the conditionals - are these site dependent?
-        if (!loop_info.has_site_dependent_cond_or_index) {
-            Expr *condexpr = nullptr;
-            if (IfStmt *IS = dyn_cast<IfStmt>(s))
-                condexpr = IS->getCond();
-            else if (ForStmt *FS = dyn_cast<ForStmt>(s))
-                condexpr = FS->getCond();
-            else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
-                condexpr = WS->getCond();
-            else if (DoStmt *DS = dyn_cast<DoStmt>(s))
-                condexpr = DS->getCond();
-            else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
-                condexpr = SS->getCond();
-            else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
-                condexpr = CO->getCond();
-
-            if (condexpr != nullptr) {
+        Expr *condexpr = nullptr;
+        if (IfStmt *IS = dyn_cast<IfStmt>(s))
+            condexpr = IS->getCond();
+        else if (ForStmt *FS = dyn_cast<ForStmt>(s))
+            condexpr = FS->getCond();
+        else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
+            condexpr = WS->getCond();
+        else if (DoStmt *DS = dyn_cast<DoStmt>(s))
+            condexpr = DS->getCond();
+        else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
+            condexpr = SS->getCond();
+        else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
+            condexpr = CO->getCond();
+
+        if (condexpr != nullptr) {
+            if (!loop_info.has_site_dependent_cond_or_index) {
                 loop_info.has_site_dependent_cond_or_index =
                     is_site_dependent(condexpr, &loop_info.conditional_vars);
                 if (loop_info.has_site_dependent_cond_or_index)
                     loop_info.condExpr = condexpr;
-
-                // Flag general cond expression
-                loop_info.has_conditional = true;
             }
+
+            // Flag general cond expression, also if site dependence was found already
+            loop_info.has_conditional = true;
         }
 
         parsing_state.ast_depth = 0;
-- 
2.43.0


From 34ff9be680940f755970e4b3fd2304fff8490d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 49/65] fix: clusters found from links joined neighbouring
 sites without a link between them

---
 libraries/plumbing/clusters.h | 52 +++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..5f4a2d2 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -293,15 +293,8 @@ class Clusters {
     /// @param link[d][X] is non-zero if sites X and X + d are to be connected
     template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
     void find(const VectorField<inttype> &link) {
-        assert_all_ranks_present();
-        Field<uint8_t> f{hila::Clusters::background};
-        foralldir (d) {
-            onsites (ALL) {
-                if (link[d][X] != 0 || link[d][X - d] != 0)
-                    f[X] = 1;
-            }
-        }
-        find(f);
+        make_labels(link);
+        classify();
     }
 
 
@@ -393,6 +386,47 @@ class Clusters {
         // hila::out0 << "cluster labels: " << i << " iterations\n";
     }
 
+    /// @brief make only the Field representation of cluster labels from connecting links
+    /// @param link[d][X] is non-zero if sites X and X + d are to be connected
+    template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
+    void make_labels(const VectorField<inttype> &link) {
+
+        assert_all_ranks_present();
+
+        // sites without links are background, all others have the type 1
+        labels[ALL] = set_cl_label(X.coordinates(), hila::Clusters::background);
+        foralldir (d) {
+            onsites (ALL) {
+                if (link[d][X] != 0 || link[d][X - d] != 0)
+                    labels[X] = set_cl_label(X.coordinates(), 1);
+            }
+        }
+
+        Reduction<int64_t> changed;
+        changed.delayed();
+        do {
+            changed = 0;
+            for (Parity par : {EVEN, ODD}) {
+                foralldir (d) {
+                    // take away annoying warning with pragma
+                    #pragma hila safe_access(labels)
+                    onsites (par) {
+                        auto label_up = labels[X + d];
+                        auto label_dn = labels[X - d];
+                        if (link[d][X] != 0 && labels[X] > label_up) {
+                            labels[X] = label_up;
+                            changed += 1;
+                        }
+                        if (link[d][X - d] != 0 && labels[X] > label_dn) {
+                            labels[X] = label_dn;
+                            changed += 1;
+                        }
+                    }
+                }
+            }
+        } while (changed.value() > 0);
+    }
+
     /// @brief obtain const refence to cluster label Field var
     /// Clusters::find() must have been called before this
 
-- 
2.43.0


From 416a3b30c05d0c97458eaa3d2c7c8fba6a8f4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 50/65] fix: SiteValueSelect: keep the last value when a site
 is selected again, no write past the end

---
 libraries/plumbing/site_select.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..9ad56ef 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,9 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
+        // if the same site is selected again the last value replaces the previous one
         SiteSelect::select_site(s);
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0


From 3bf320a6c2e6ce48647c30f3ad83fcbd694ea600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 51/65] fix: block_from, unblock_to, block_to_current_lattice:
 keep field status in step on nodes without blocked sites

---
 libraries/plumbing/field_comm.h | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index e83bd2f..7b5549f 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1339,10 +1339,6 @@ void Field<T>::block_from(Field<T> &orig) {
 
     assert(blocklat->parent == parentlat && "blocking must happen from parent lattice Field");
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
@@ -1402,10 +1398,6 @@ void Field<T>::unblock_to(Field<T> &target) const {
         return;
     }
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
@@ -1456,10 +1448,6 @@ void Field<T>::block_to_current_lattice() {
     assert(currentlat->parent == thislat &&
            "blocking must happen to the next lattice blocked from thislat");
 
-    // If no sites on this node there's nothing to do
-    if (currentlat->mynode.volume == 0)
-        return;
-
     // alloc temp array, size of the blocked lattice
     size_t bufsize = currentlat->mynode.volume;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
-- 
2.43.0


From 2a19bc372376cddd264808aab0c7b96cfbeeda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 52/65] fix: lattice.block(): reuse a blocked lattice only if
 its parent is the current lattice

---
 libraries/plumbing/lattice.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..cce235f 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -1074,8 +1074,10 @@ lattice_struct *lattice_struct::block_by_factor(const CoordinateVector &blocking
 
     hila::synchronize();
 
+    // reuse an earlier blocked lattice only if it was made from this lattice, otherwise
+    // unblock() and block_from() would go to a wrong parent
     for (auto *l : hila::defined_lattices) {
-        if (l->l_size == blockvol) {
+        if (l == this ? l_size == blockvol : (l->parent == this && l->l_size == blockvol)) {
             lattice.switch_to(l);
             return l;
         }
-- 
2.43.0


From 7f4419cb82860f5f6eb6b691842a7e7e33b80584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 53/65] fix: seeding the random number generator discards the
 left over Gaussian number

gaussrand() kept the second number of a pair across seed_random(), so the
sequence after seeding depended on how many numbers were drawn before it.
---
 libraries/plumbing/random.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/libraries/plumbing/random.cpp b/libraries/plumbing/random.cpp
index 0a0bf80..ebd113c 100644
--- a/libraries/plumbing/random.cpp
+++ b/libraries/plumbing/random.cpp
@@ -35,6 +35,12 @@ double hila::host_random() {
 
 static bool rng_is_initialized = false;
 
+#if !defined(CUDA) && !defined(HIP)
+// second number of the pair drawn by gaussrand(), waiting for the next call
+static double gaussrand_second;
+static bool gaussrand_draw_new = true;
+#endif
+
 namespace hila {
 
 /**
@@ -61,6 +67,11 @@ void initialize_host_rng(uint64_t seed) {
 
     seed = hila::shuffle_rng_seed(seed);
 
+#if !defined(CUDA) && !defined(HIP)
+    // a number left over from the old sequence must not be used any more
+    gaussrand_draw_new = true;
+#endif
+
     // #if !defined(OPENMP)
     mersenne_twister_gen.seed(seed);
     // warm it up
@@ -220,14 +231,12 @@ double hila::gaussrand2(double &out2) {
  * @return double
  */  
 double hila::gaussrand() {
-    static double second;
-    static bool draw_new = true;
-    if (draw_new) {
-        draw_new = false;
-        return hila::gaussrand2(second);
+    if (gaussrand_draw_new) {
+        gaussrand_draw_new = false;
+        return hila::gaussrand2(gaussrand_second);
     }
-    draw_new = true;
-    return second;
+    gaussrand_draw_new = true;
+    return gaussrand_second;
 }
 
 #else
-- 
2.43.0


From e283b3b7c4bf4236978da8adaa5147c38d055bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 54/65] fix: random(float&) and Complex<float>::random() stay
 below 1

The conversion from double rounded numbers above 1 - 2^-25 up to 1.
---
 libraries/datatypes/cmplx.h | 4 ++--
 libraries/plumbing/random.h | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index b626ebd..e788e43 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -329,8 +329,8 @@ class Complex {
      * @return Complex<T>&
      */
     inline Complex<T> &random() out_only {
-        re = hila::random();
-        im = hila::random();
+        hila::random(re);
+        hila::random(im);
         return *this;
     }
 
diff --git a/libraries/plumbing/random.h b/libraries/plumbing/random.h
index bba973b..8d1af6c 100644
--- a/libraries/plumbing/random.h
+++ b/libraries/plumbing/random.h
@@ -104,7 +104,10 @@ void check_that_rng_is_initialized();
  */
 template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
 T random(out_only T &val) {
-    val = hila::random();
+    do {
+        val = hila::random();
+        // the conversion to float may round up to 1
+    } while (val >= 1);
     return val;
 }
 
-- 
2.43.0


From 68ae63d8bd05df68b44372bfe37e1f7ce2594526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 55/65] fix: direct_single weight iteration: do not return an
 uninitialised value between checks

---
 libraries/tools/multicanonical.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 575e902..0ce4170 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -623,7 +623,7 @@ bool iterate_weight_function_direct(Muca &muca, double OP) {
 /// @return boolean indicating whether the iteration is considered complete
 ////////////////////////////////////////////////////////////////////////////////
 bool iterate_weight_function_direct_single(Muca &muca, double OP) {
-    int continue_iteration;
+    int continue_iteration = true;
     if_rank0() {
         int samples = muca.DI.sample_size;
         int N = muca.weights.size();
@@ -663,7 +663,6 @@ bool iterate_weight_function_direct_single(Muca &muca, double OP) {
                            << "\n";
             }
 
-            continue_iteration = true;
             if (muca.DI.C < muca.DI.C_min) {
                 hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
                            << " Weight iteration complete.\n";
-- 
2.43.0


From bbf3549fdc3be5d08250b0068019c0499c061200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 56/65] fix: canonical weight iteration: no division by zero if
 CI_max_iters is less than 100

---
 libraries/tools/multicanonical.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 0ce4170..25dd6af 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -824,7 +824,8 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             if (muca.CI.weight_update_count > muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
-            if (muca.CI.weight_update_count % (muca.CI.max_iters / 100) == 0)
+            int print_interval = muca.CI.max_iters >= 100 ? muca.CI.max_iters / 100 : 1;
+            if (muca.CI.weight_update_count % print_interval == 0)
                 printf("Muca: iteration %d / %d\n", muca.CI.weight_update_count, muca.CI.max_iters);
         }
     }
-- 
2.43.0


From ec58b7d058a67871fbde4762b5ed34664bafb9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 57/65] fix: canonical weight iteration: normalise also the
 last bin by its width

---
 libraries/tools/multicanonical.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 25dd6af..7c992fe 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -763,9 +763,9 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             std::swap(muca.CI.noc_weights, muca.weights);
 
             // normalisation necesary if bins with different lengths
-            for (size_t i = 1; i < muca.CI.can_hist.size(); ++i) {
-                double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
-                muca.CI.can_hist[i - 1] /= bin_width;
+            for (size_t i = 0; i < muca.CI.can_hist.size(); ++i) {
+                double bin_width = muca.OP_bin_limits[i + 1] - muca.OP_bin_limits[i];
+                muca.CI.can_hist[i] /= bin_width;
             }
 
             int min_hits = muca.CI.min_bin_hits;
-- 
2.43.0


From 1b71dfa223cab97c09fe74568b76aebe439eec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 58/65] fix: canonical weight iteration: overcorrect also the
 last bin

---
 libraries/tools/multicanonical.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 7c992fe..af2d020 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -811,10 +811,10 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
                         muca.CI.noc_weights.size() * sizeof(muca.CI.noc_weights[0]));
             double C = muca.CI.OC_factor;
             double d0 = muca.OP_bin_limits[1] - muca.OP_bin_limits[0];
-            for (size_t i = 1; i < muca.weights.size(); ++i) {
-                double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
-                muca.weights[i - 1] +=
-                    C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i - 1] / muca.CI.hits_nsum[0]);
+            for (size_t i = 0; i < muca.weights.size(); ++i) {
+                double bin_width = muca.OP_bin_limits[i + 1] - muca.OP_bin_limits[i];
+                muca.weights[i] +=
+                    C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i] / muca.CI.hits_nsum[0]);
             }
 
             muca.write_weight_function("intermediate_weight.dat");
-- 
2.43.0


From d352dce6fe7603fd84f5647b2b8344eb07f6ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 59/65] fix: get_wloop_force, get_wloop_force_from_wl: call
 functions which exist

---
 libraries/gauge/wilson_line_and_force.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index dc17d54..408e9b5 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -113,7 +113,7 @@ void get_wloop_force_from_wl(const GaugeField<group> &U, const std::vector<Direc
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, W, eps, K);
+    get_wloop_force_from_wl_add(U, path, W, eps, K);
 }
 
 template <typename group, typename atype = hila::arithmetic_type<group>>
@@ -161,7 +161,7 @@ void get_wloop_force(const GaugeField<group> &U, const std::vector<Direction> &p
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, eps, K);
+    get_wloop_force_add(U, path, eps, K);
 }
 
 
-- 
2.43.0


From 33ef6225469c41802c1d1d6039a9fcf662ea3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 60/65] fix: get_zeuthen_flow_force: forward term of the second
 derivative uses the force at X + d

---
 libraries/gauge/gradient_flow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/gauge/gradient_flow.h b/libraries/gauge/gradient_flow.h
index e990b82..686c78b 100644
--- a/libraries/gauge/gradient_flow.h
+++ b/libraries/gauge/gradient_flow.h
@@ -88,7 +88,7 @@ void get_zeuthen_flow_force(const GaugeField<group> &U, VectorField<Algebra<grou
                 F_LW[d][X] +
                 (1.0 / 12.0) * ( // calculate gradient term improvement
                                  // (\mu=d, no sum) D_\mu D_\mu^* F_LW(X)
-                                   left_conjugation(U[d][X], F_LW[d][X])            // U F U^\dagger
+                                   left_conjugation(U[d][X], F_LW[d][X + d])        // U F U^\dagger
                                    - 2.0 * F_LW[d][X]                               //
                                    + right_conjugation(U[d][X - d], F_LW[d][X - d]) // U^dagger F U
                                );
-- 
2.43.0


From 36879f49edc478aca6b1c3b262b7cf94f0571418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 61/65] fix: degauss: step size follows the largest eigenvalue
 4 NDIM, converges also in 4 dimensions

---
 libraries/gauge/degauss.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/gauge/degauss.h b/libraries/gauge/degauss.h
index 66b0ee9..f62f178 100644
--- a/libraries/gauge/degauss.h
+++ b/libraries/gauge/degauss.h
@@ -59,7 +59,7 @@ auto degauss_step(const GaugeField<group> &U, VectorField<Algebra<group>> &E) {
     //  faster.
 
     constexpr double aleph = 1.25;
-    constexpr hila::arithmetic_type<group> onealeph = aleph / 12.0;
+    constexpr hila::arithmetic_type<group> onealeph = aleph / (4.0 * NDIM);
     constexpr hila::arithmetic_type<group> twoaleph = 2.0 * onealeph;
 
     //  Now what's the initial violation
-- 
2.43.0


From eb2aa3027d271e4820dca743b83456eb0d59dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 62/65] fix: get_wilson_line: path of one link

---
 libraries/gauge/wilson_line_and_force.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index 408e9b5..cb335b3 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -39,6 +39,12 @@ void get_wilson_line(const GaugeField<group> &U, const std::vector<Direction> &p
         onsites(ALL) R0[ip][X] = U[-dir][X].dagger();
     }
 
+    if (L == 1) {
+        // the line is a single link
+        R = R0[ip];
+        return;
+    }
+
     // multiply R0[ip] successively with the L-2 intermediate link variables of the Wilson line
     // and store the result in R0[1-ip]
     for (i = 1; i < L - 1; ++i) {
-- 
2.43.0


From a9383e6f2dee1b00154b151518b7ab03ef283732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 63/65] fix: hilapp find_word: word ending one character before
 the end of the text, and later occurrences

---
 hilapp/src/stringops.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/hilapp/src/stringops.cpp b/hilapp/src/stringops.cpp
index a2f8a67..d4bfef7 100644
--- a/hilapp/src/stringops.cpp
+++ b/hilapp/src/stringops.cpp
@@ -86,23 +86,24 @@ std::string remove_all_whitespace(const std::string &line) {
 
 std::string::size_type find_word(const std::string &in, const std::string &pattern, int pos,
                                  bool reverse) {
-    int i;
-    if (!reverse)
-        i = in.find(pattern, pos);
-    else
-        i = in.rfind(pattern, pos);
-
-    if (i == std::string::npos)
-        return std::string::npos; // not found
-
-    if (i > 0 && (std::isalnum(in[i - 1]) || in[i - 1] == '_'))
-        return std::string::npos; // is at the end of a longer word
-    if (i < in.length() - pattern.length() - 1) {
-        char c = in[i + pattern.length()];
-        if (std::isalnum(c) || c == '_')
-            return std::string::npos; // word continues
+    std::string::size_type i = reverse ? in.rfind(pattern, pos) : in.find(pattern, pos);
+
+    while (i != std::string::npos) {
+        std::string::size_type end = i + pattern.length();
+
+        bool in_longer_word =
+            (i > 0 && (std::isalnum(in[i - 1]) || in[i - 1] == '_')) ||
+            (end < in.length() && (std::isalnum(in[end]) || in[end] == '_'));
+        if (!in_longer_word)
+            return i;
+
+        // look for the next one
+        if (!reverse)
+            i = in.find(pattern, i + 1);
+        else
+            i = (i > 0) ? in.rfind(pattern, i - 1) : std::string::npos;
     }
-    return i;
+    return std::string::npos; // not found
 }
 
 // returns true if line contains the word list at the beginning of line.  list
-- 
2.43.0


From 4b40c952bd2b3e2b9f0539195db7226229baf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 64/65] fix: hilapp aborted on array brackets applied to the
 result of a call, as in params.get().b[0]

---
 hilapp/src/toplevelvisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 3754283..538fa16 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -434,7 +434,7 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
     }
 
     VarDecl *vd = nullptr;
-    DeclRefExpr *DRE = dyn_cast<DeclRefExpr>(ref.DRE);
+    DeclRefExpr *DRE = dyn_cast_or_null<DeclRefExpr>(ref.DRE);
     // if (DRE == nullptr) {
     //     llvm::errs() << "hilapp error: array refs to member variables not yet "
     //                     "implemented - probably does not work\n";
-- 
2.43.0


From 2581f65889dfa4081d5a2769650af026a600ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 65/65] fix: hilapp refused hila::global .get() in functions
 called from site loops, as documented in globals.h

---
 hilapp/src/generalvisitor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hilapp/src/generalvisitor.cpp b/hilapp/src/generalvisitor.cpp
index 513b05c..31f9282 100644
--- a/hilapp/src/generalvisitor.cpp
+++ b/hilapp/src/generalvisitor.cpp
@@ -720,6 +720,16 @@ bool GeneralVisitor::handle_global_var_method_call(CallExpr *CE) {
                 E = OP->getArg(0)->IgnoreParens()->IgnoreImplicit();
             }
         }
+
+    } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
+
+        // .get() gives the same const reference as operator()
+        auto *FD = MC->getDirectCallee();
+        if (FD && FD->getNameAsString() == "get" &&
+            get_expr_type(MC->getImplicitObjectArgument()).find("hila::global<") !=
+                std::string::npos) {
+            E = MC->getImplicitObjectArgument()->IgnoreParens()->IgnoreImplicit();
+        }
     }
 
     if (E) {
-- 
2.43.0


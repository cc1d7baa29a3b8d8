From 92ef51e1c8057537dcb54ee6eb688d7eefd7cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 01/26] fix: clamp k to the number of other points

With k >= N the unfilled heap slots named point 0, so that rows repeated
neighbors, listed the point itself or kept the whole candidate list.
---
 src/votess.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..58e93f4 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -557,7 +557,7 @@ __cpu__recompute(
     subsize = cur;
     for (Ti i = 0; i < refsize; i++) states[i].reset();
 
-    if (subsize <= 0) {
+    if (subsize <= 0 || refsize < 2) {
       break;
     }
 
@@ -681,6 +681,10 @@ tesellate(
   const auto& refset = xyzset;
   const size_t refsize = refset.size();
 
+  // a point has at most refsize - 1 neighbors
+  const int k_limit = refsize > 1 ? refsize - 1 : 1;
+  if (args["k"].get<int>() > k_limit) args["k"] = k_limit;
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From f7552228097fcd5736ac64ca7df334e51ec3ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 02/26] fix: keep grid cell indices inside the grid

x / gl rounds up to the grid resolution for coordinates just below 1, so
that the cell id pointed past the offset table or into another row.
---
 src/xyzset.ipp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..807f4fc 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -13,6 +13,13 @@ inline T2 get_distance(
   return square(p0 - q0) + square(p1 - q1) + square(p2 - q2);
 }
 
+template <typename T1, typename T2>
+inline T1 get_cell(const T2 x, const T2 gl, const T1 gr) {
+  const T2 cell = std::floor(x / gl);
+  if (!(cell > 0)) return 0;
+  return cell < gr ? static_cast<T1>(cell) : gr - 1;
+}
+
 template <typename T1, typename T2>
 const std::pair<std::vector<T1>, std::vector<T1>>
 sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
@@ -26,9 +33,9 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = get_cell<T1,T2>(xyzset[i][0], gl, gr)
+          + get_cell<T1,T2>(xyzset[i][1], gl, gr) * gr  
+          + get_cell<T1,T2>(xyzset[i][2], gl, gr) * gr * gr; 
   };
   
   // sort
@@ -108,9 +115,9 @@ bool validate_sort(
 ) {
   T2 gl = 1.0f / gr;
   for (size_t i = 0; i < xyzset.size(); ++i) {
-    T1 cid = static_cast<T1>(std::floor(xyzset[i][0] / gl)) +
-             static_cast<T1>(std::floor(xyzset[i][1] / gl) * gr) +
-             static_cast<T1>(std::floor(xyzset[i][2] / gl) * gr * gr);
+    T1 cid = get_cell<T1,T2>(xyzset[i][0], gl, gr) +
+             get_cell<T1,T2>(xyzset[i][1], gl, gr) * gr +
+             get_cell<T1,T2>(xyzset[i][2], gl, gr) * gr * gr;
     if (cid != id[i]) {
       return false;
     }
-- 
2.43.0


From d64b10c9ec3ee921b523375c683df515ff2119f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 03/26] fix: validate_xyzset rejects NaN coordinates

---
 src/xyzset.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 807f4fc..b9e475f 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -81,7 +81,7 @@ bool
 validate_xyzset(const std::vector<std::array<T2,3>>& xyzset) {
   for (size_t i = 0; i < xyzset.size(); i++) {
     for (size_t j = 0; j < xyzset[0].size(); j++) {
-      if (xyzset[i][j] >= 1.0f || xyzset[i][j] <= 0.0f) {
+      if (!(xyzset[i][j] > 0.0f && xyzset[i][j] < 1.0f)) {
         return false;
       }
     }
-- 
2.43.0


From cd32e58fef4fb12636c29d433e48f239fc5bd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 04/26] fix: keep cc_p_maxsize and cc_t_maxsize within what a
 cell can use

Below 6 planes or 8 vertices the initial box overran the buffers; from 256
planes on the uint8_t plane numbers wrapped and every cell failed.
---
 src/votess.ipp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 58e93f4..38e1b96 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -20,6 +20,13 @@
 
 #define FP_INFINITY 128.00f
 
+// The initial box takes 6 planes and 8 vertices. Planes are numbered by an
+// uint8_t with 255 reserved, and n planes never meet in over 2n vertices.
+#define CC_P_MINSIZE 6
+#define CC_P_LIMIT   255
+#define CC_T_MINSIZE 8
+#define CC_T_LIMIT   512
+
 namespace suppress {
   class stdout {
     public:
@@ -562,8 +569,8 @@ __cpu__recompute(
     }
 
     k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
-    p_maxsize *= update_p_maxsize ? 2 : 1;
-    t_maxsize *= update_t_maxsize ? 2 : 1;
+    p_maxsize = std::min(p_maxsize * (update_p_maxsize ? 2 : 1), CC_P_LIMIT);
+    t_maxsize = std::min(t_maxsize * (update_t_maxsize ? 2 : 1), CC_T_LIMIT);
 
     args["k"] = k;
     args["cc_p_maxsize"] = p_maxsize;
@@ -685,6 +692,11 @@ tesellate(
   const int k_limit = refsize > 1 ? refsize - 1 : 1;
   if (args["k"].get<int>() > k_limit) args["k"] = k_limit;
 
+  const int p_maxsize = args["cc_p_maxsize"];
+  const int t_maxsize = args["cc_t_maxsize"];
+  args["cc_p_maxsize"] = std::clamp(p_maxsize, CC_P_MINSIZE, CC_P_LIMIT);
+  args["cc_t_maxsize"] = std::clamp(t_maxsize, CC_T_MINSIZE, CC_T_LIMIT);
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From d9d82e032a9aa8648e8a67af2426494c0c55a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 05/26] fix: recompute keeps the states of the cells it does
 not touch

Every state was reset, so that the summary counted finished cells as
failures.
---
 src/votess.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 38e1b96..018e588 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -562,7 +562,7 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < refsize; i++) states[i].reset();
+    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
 
     if (subsize <= 0 || refsize < 2) {
       break;
-- 
2.43.0


From c4000ff53d3c8cfffc19c4f4fd09dae933a87030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 06/26] fix: recompute goes on while a cell overflows

The loop ended as soon as k covered all points, leaving cells whose planes
or vertices still overflowed with the raw candidate list.
---
 src/votess.ipp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 018e588..21c4ca8 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -562,12 +562,20 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
 
     if (subsize <= 0 || refsize < 2) {
       break;
     }
 
+    // nothing left to enlarge
+    if (k >= (refsize - 1) &&
+        !(update_p_maxsize && p_maxsize < CC_P_LIMIT) &&
+        !(update_t_maxsize && t_maxsize < CC_T_LIMIT)) {
+      break;
+    }
+
+    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
+
     k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
     p_maxsize = std::min(p_maxsize * (update_p_maxsize ? 2 : 1), CC_P_LIMIT);
     t_maxsize = std::min(t_maxsize * (update_t_maxsize ? 2 : 1), CC_T_LIMIT);
@@ -629,10 +637,6 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
-      break;
-    }
-
   }
 
 }
-- 
2.43.0


From 31a6adb90dadd35ca989d1fe49250287f461547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 07/26] fix: index the reference set on the device by its own
 size

The coordinates were read with the size of the chunk as stride.
---
 src/cc.ipp  | 6 +++---
 src/knn.ipp | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..734d6b2 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -494,9 +494,9 @@ void cci::compute(
   Tf vertex[4];
   Tf bisector[4];
 
-  const Tf px = refset[refsize * 0 + index];
-  const Tf py = refset[refsize * 1 + index];
-  const Tf pz = refset[refsize * 2 + index];
+  const Tf px = refset[xyzsize * 0 + index];
+  const Tf py = refset[xyzsize * 1 + index];
+  const Tf pz = refset[xyzsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
     P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..d626cb1 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -242,9 +242,11 @@ void knni::compute(
   static_assert(std::is_floating_point<Tf>::value,
                 "Tf must be a floating point type");
 
-  const Tf q0 = refset[refsize * 0 + index];
-  const Tf q1 = refset[refsize * 1 + index];
-  const Tf q2 = refset[refsize * 2 + index];
+  (void) refsize;
+
+  const Tf q0 = refset[xyzsize * 0 + index];
+  const Tf q1 = refset[xyzsize * 1 + index];
+  const Tf q2 = refset[xyzsize * 2 + index];
 
   const uint16_t k = args.k;
   const uint8_t gr = args.grid_resolution;
-- 
2.43.0


From 416c389fb12483c0f753645c06a1650dddd3983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 08/26] fix: start the device states from the initialised ones

The kernel updates single bits of a buffer that was never written, and
discarded the states of earlier chunks.
---
 src/votess.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 21c4ca8..23e562c 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -236,7 +236,8 @@ __gpu__tesellate(
   sycl::buffer<Ti,1> bheap_id(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1> bheap_pq(sycl::range<1>(subsize * k));
 
-  sycl::buffer<cc::state,1> bstates((sycl::range<1>(xyzsize)));
+  sycl::buffer<cc::state,1> bstates(states.data(), 
+                                    sycl::range<1>(states.size()));
   sycl::buffer<Ti,1>      bdknn(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
@@ -302,7 +303,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
@@ -347,7 +348,7 @@ __gpu__tesellate(
     auto hknn = bheap_id.get_host_access();
 
     std::vector<Ti> indices(hindices.begin(), hindices.end());
-    states = std::vector<cc::state>(hstates.begin(), hstates.end());
+    std::copy(hstates.begin(), hstates.end(), states.begin());
 
     std::vector<Ti> _knn(hknn.begin(), hknn.end());
     std::vector<Ti> knn(_knn.size());
-- 
2.43.0


From 57bb5f617e861bc56276f0f45b48c0b280169de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 09/26] fix: launch whole work groups for any number of points

A number of points that gpu_ndsize does not divide, or an empty last
chunk, made the launch fail.
---
 src/votess.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 23e562c..470334d 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -249,6 +249,10 @@ __gpu__tesellate(
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
+    if (subsize == 0) break;
+
+    // the global size has to be a multiple of the work group size
+    const size_t ndglobal = (subsize + ndsize - 1) / ndsize * ndsize;
 
     queue.submit([&](sycl::handler& cgh) {
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
@@ -312,11 +316,12 @@ __gpu__tesellate(
       auto aargs_cc = args_cc;
 
       cgh.parallel_for<class __sycl__tessellate>
-      (sycl::nd_range<1>(sycl::range<1>(subsize), sycl::range<1>(ndsize)),
+      (sycl::nd_range<1>(sycl::range<1>(ndglobal), sycl::range<1>(ndsize)),
       [=](sycl::nd_item<1> it) {
 
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
+        if (g_index >= static_cast<size_t>(subsize)) return;
 
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
-- 
2.43.0


From 328995e08f6a20fd9c7a6021f24ed4c4a7def2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 10/26] fix: device knn accepts grid resolutions above 255

---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index d626cb1..329a6f4 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -249,7 +249,7 @@ void knni::compute(
   const Tf q2 = refset[xyzsize * 2 + index];
 
   const uint16_t k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
   const uint16_t px = (id[index]) % gr;
@@ -265,7 +265,7 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (int r = 0; r < gr; r++) {
 
     const uint16_t beg_z = utils::bmax(pz - r, 0);
     const uint16_t beg_y = utils::bmax(py - r, 0);
-- 
2.43.0


From fb86b3c4dfa741090686ad8f911e9ef146e31431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 11/26] fix: print and save empty rows

A row without neighbors was skipped, so that every later row was written
as one line too early or merged with the next.
---
 src/dnn.ipp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..422f9a0 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -76,7 +76,7 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
@@ -87,19 +87,14 @@ void votess::dnn<Ti>::print() const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
   std::cout<<"{\n  {";
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+  for (size_t row = 0; row < this->size(); row++) {
+    if (row > 0) {
       std::cout << "}\n  {";
     }
-
-    std::cout<<std::setw(1)<<i<<", ";
-    index += 1;
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      std::cout<<std::setw(1)<<this->list[i]<<", ";
+    }
   }
   std::cout << "}\n}" << std::endl;
 
@@ -113,19 +108,12 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      fp<<"\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      fp<<std::setw(1)<<this->list[i]<<" ";
     }
-    fp<<std::setw(1)<<i<<" ";
-    index += 1;
+    fp<<"\n";
   }
-  fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From 50b47059cff9183c7c156d10531ba242f97b4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 12/26] fix: accept the documented --gridres option

---
 src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..ba6f69e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -93,6 +93,7 @@ parse_args(int argc, char* argv[]) {
     {"infile",            required_argument,  0,  'i'},
     {"use-device",        required_argument,  0,  'x'},
     {"k-init",            required_argument,  0,  'k'},
+    {"gridres",           required_argument,  0,  'g'},
     {"grid-resolution",   required_argument,  0,  'g'},
     {"cpu-nthreads",      required_argument,  0,  't'},
     {"gpu-ndsize",        required_argument,  0,  'd'},
-- 
2.43.0


From 3b8722408aace0ee6cf49c0c89bbc42db04bbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 13/26] fix: honour --use-device

The parsed device was dropped; the default stays the CPU.
---
 src/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index ba6f69e..23e585a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -75,7 +75,7 @@ parse_args(int argc, char* argv[]) {
 
   std::string infile = "";
   struct votess::vtargs vtargs;
-  votess::device device = votess::device::gpu;
+  votess::device device = votess::device::cpu;
 
   int k_init = ARGS_DEFAULT_K;
   int chunksize = ARGS_DEFAULT_CHUNKSIZE;
@@ -223,7 +223,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From 8d233d13666f2501796019a4d82d3492f62e495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:41 +0000
Subject: [PATCH 14/26] fix: measure the knn search radius in the type of the
 coordinates

With double coordinates the distance to the unvisited cells was rounded to
float and could exceed the true one, so that the search stopped before a
nearer point was seen.
---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 329a6f4..288246c 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -48,7 +48,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const Ti h0 = k * i;
 
@@ -152,7 +152,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const Ti h0 = k * i;
 
-- 
2.43.0


From deead859e729264f3583a9374e1ecf6c8cc1ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:11 +0000
Subject: [PATCH 15/26] fix: device boundary counts more than 255 removed
 vertices

---
 src/boundary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..2892577 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
-- 
2.43.0


From 0745154ed888b18f6856bedd14ac2b3a3dcce55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:59 +0000
Subject: [PATCH 16/26] fix: a row of a dnn keeps the dnn alive in python

---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..d5dc521 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -63,7 +63,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From 421a9b636d84419f36be52e0e206cf087173aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:59 +0000
Subject: [PATCH 17/26] fix: python raises IndexError outside of a dnn

---
 src/pybind11/pyvotess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index d5dc521..f7e027e 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,9 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || (size_t)i >= (size_t)self.size()) {
+      throw pybind11::index_error();
+    }
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +65,9 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || (size_t)i >= instance.size()) {
+      throw pybind11::index_error();
+    }
     return instance[i];
   }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From de6cfec49b231c0ab6666b71c77cdcd68c41e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:57 +0000
Subject: [PATCH 18/26] fix: cells with more than 65535 neighbours to look at

---
 src/cc.ipp  | 6 +++---
 src/knn.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 734d6b2..ba391c4 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,7 +31,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -254,7 +254,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -481,7 +481,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
diff --git a/src/knn.ipp b/src/knn.ipp
index 288246c..f3e88cb 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -248,7 +248,7 @@ void knni::compute(
   const Tf q1 = refset[xyzsize * 1 + index];
   const Tf q2 = refset[xyzsize * 2 + index];
 
-  const uint16_t k = args.k;
+  const int k = args.k;
   const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-- 
2.43.0


From e56c9fc1de711a1ea716512275f6ffc7792e2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 19/26] fix: size and index the host's working memory beyond
 the range of int

With 32-bit indices, subsize * t_maxsize * 3 and its like overflowed: more
than 1.4 million points at the largest capacities (16.8 million at the
default ones) made tesellate throw unless chunking was on.
---
 src/cc.ipp     |  9 ++++++---
 src/knn.ipp    |  2 +-
 src/votess.ipp | 18 +++++++++---------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index ba391c4..05d9cb4 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -1,6 +1,6 @@
 template <typename Ti, typename Tf, typename Tu>
 void cci::compute(
-  const Ti i, const Ti index,
+  const Ti cell, const Ti index,
   std::vector<cc::state>& states,
   Tf* P,
   Tu* T,
@@ -16,6 +16,9 @@ void cci::compute(
 
   (void) xyzsize;
   (void) refsize;
+
+  // the arrays may hold more entries than Ti counts
+  const size_t i = cell;
   
   // TODO : make this swappable for future
   static const Tf p_init[] = { 
@@ -147,13 +150,13 @@ void cci::compute(
       dknn[k * i + neighbor] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * i;
+      const size_t dr_offs = p_maxsize * i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
 
       short int head = -1;
-      boundary::bstatus bstat = boundary::compute<Ti, Tu>(
+      boundary::bstatus bstat = boundary::compute<size_t, Tu>(
         dR, dr_offs, p_maxsize, head,
         T, 3 * t_maxsize * i + t_size * 3, r_size
       );
diff --git a/src/knn.ipp b/src/knn.ipp
index f3e88cb..f4b6e74 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -50,7 +50,7 @@ void knni::compute(
   const auto gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-  const Ti h0 = k * i;
+  const size_t h0 = static_cast<size_t>(k) * i;
 
   // memory access
   const int px = (id[index]) % gr;
diff --git a/src/votess.ipp b/src/votess.ipp
index 470334d..3129e88 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -404,9 +404,9 @@ __cpu__tesellate(
                     (chunksize < refsize) ? 
                     refsize / chunksize + 1: 1;
 
-  Ti subsize = (chunksize > 0) && 
-               (chunksize < refsize) ?
-               chunksize : refsize;
+  size_t subsize = (chunksize > 0) && 
+                   (chunksize < refsize) ?
+                   chunksize : refsize;
 
   std::cout << "nthread = " << nthreads << std::endl; 
   std::cout << "chunksize = " << chunksize << std::endl; 
@@ -440,7 +440,7 @@ __cpu__tesellate(
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
-    for (Ti i = 0; i < subsize; i++) {
+    for (size_t i = 0; i < subsize; i++) {
       indices[i] = _cstart + i;
     }
 
@@ -521,7 +521,7 @@ __cpu__recompute(
                           args["cpu_nthreads"] : 
                           std::thread::hardware_concurrency(); 
 
-  Ti subsize = 0;
+  size_t subsize = 0;
   for (auto& s : states) {
     if (!s.get(cc::security_radius_reached)) {
       subsize++;
@@ -553,8 +553,8 @@ __cpu__recompute(
     bool update_t_maxsize = false;
     bool update_p_maxsize = false;
   
-    Ti cur = 0;
-    for (Ti i = 0; i < subsize; i++) {
+    size_t cur = 0;
+    for (size_t i = 0; i < subsize; i++) {
       const auto index = indices[i];
       if (!states[index].get(cc::security_radius_reached)) {
         indices[cur++] = index;
@@ -569,7 +569,7 @@ __cpu__recompute(
 
     subsize = cur;
 
-    if (subsize <= 0 || refsize < 2) {
+    if (subsize == 0 || refsize < 2) {
       break;
     }
 
@@ -580,7 +580,7 @@ __cpu__recompute(
       break;
     }
 
-    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
+    for (size_t i = 0; i < subsize; i++) states[indices[i]].reset();
 
     k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
     p_maxsize = std::min(p_maxsize * (update_p_maxsize ? 2 : 1), CC_P_LIMIT);
-- 
2.43.0


From 0adc12763dec53eb177ebb5f986546abec95ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:49 +0000
Subject: [PATCH 20/26] fix: keep a run of the device path within the range its
 kernels index

The buffers' sizes overflowed as on the host; larger sets are now split into
runs, which changes no row.
---
 src/votess.ipp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 3129e88..fd26d61 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -202,8 +202,15 @@ __gpu__tesellate(
   const int ndsize = args["gpu_ndsize"].get<int>() > 0 ?
                      args["gpu_ndsize"] : 1;
 
-  const int chunksize = args["use_chunking"].get<bool>() ? 
-                        args["chunksize"] : refsize + 1;
+  int chunksize = args["use_chunking"].get<bool>() ? 
+                  args["chunksize"] : refsize + 1;
+
+  // the kernels index the memory of a run with int
+  const int maxsize = std::numeric_limits<int>::max() /
+                      std::max({k, p_maxsize * 4, t_maxsize * 3});
+  if (chunksize <= 0 || chunksize > maxsize) {
+    chunksize = std::min<Ti>(refsize + 1, maxsize);
+  }
 
   const int nruns = (chunksize > 0) && 
                     (chunksize < refsize) ? 
-- 
2.43.0


From 66d637452e110689c67619534f7ac0eeb136f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 21/26] fix: hand the rim search of the device path an offset
 of full width

With a 16-bit index type the offset into the vertices was cut off and the
kernel read and wrote outside its own cell.
---
 src/cc.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 05d9cb4..dd876f3 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -600,13 +600,13 @@ void cci::compute(
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * l_i;
+      const size_t dr_offs = p_maxsize * l_i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
 
       short int head = -1;
-      boundary::bstatus bstat = boundary::compute<Ti, Tu>(
+      boundary::bstatus bstat = boundary::compute<size_t, Tu>(
         dR, dr_offs, p_maxsize, head,
         T, 3 * t_maxsize * i + t_size * 3, r_size
       );
-- 
2.43.0


From 6a04fe831c271f5e2206213df526de91e7460dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:57 +0000
Subject: [PATCH 22/26] fix: read a parameter set to a real number as that
 number

A whole number of a floating point type was written with six digits or as
1e+06 and then read as the int 1; text such as 12abc was read as 12.
---
 include/arguments.hpp     | 34 ++++++++++++++++++++++++++++++++++
 src/pybind11/pyvotess.cpp |  2 +-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..a8251da 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -45,6 +45,9 @@
 #include <unordered_map>
 #include <sstream>
 #include <stdexcept>
+#include <type_traits>
+#include <limits>
+#include <cmath>
 
 #include <initializer_list>
 
@@ -80,6 +83,19 @@ class vtargref {
     template <typename T>
     std::string to_str(const T v) const {
       std::ostringstream oss;
+      if constexpr (std::is_floating_point<T>::value) {
+        // as few digits as read back as the same value
+        using Tw = typename std::common_type<T, double>::type;
+        for (int p = 6; p <= std::numeric_limits<Tw>::max_digits10; p++) {
+          oss.str("");
+          oss.precision(p);
+          oss << v;
+          std::istringstream iss(oss.str());
+          Tw w;
+          if (iss >> w && w == v) break;
+        }
+        return oss.str();
+      }
       oss << v;
       return oss.str();
     }
@@ -92,6 +108,24 @@ class vtargref {
       if (iss.fail()) {
         throw std::invalid_argument("Invalid type conversion");
       }
+      if constexpr (std::is_integral<T>::value && 
+                    !std::is_same<T, char>::value) {
+        // a whole number may be written as a real one, as in 1e+06
+        if (!(iss >> std::ws).eof()) {
+          const double d = from_str<double>(s);
+          if (d != std::floor(d) || 
+              d < static_cast<double>(std::numeric_limits<T>::min()) ||
+              d >= std::ldexp(1.0, std::numeric_limits<T>::digits)) {
+            throw std::invalid_argument("Invalid type conversion");
+          }
+          return static_cast<T>(d);
+        }
+      }
+      if constexpr (std::is_floating_point<T>::value) {
+        if (!(iss >> std::ws).eof()) {
+          throw std::invalid_argument("Invalid type conversion");
+        }
+      }
       return v;
     }
   
diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index f7e027e..c92700c 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -36,7 +36,7 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
     if (pybind11::isinstance<pybind11::int_>(value)) {
       self[key] = value.cast<int>();
     } else if (pybind11::isinstance<pybind11::float_>(value)) {
-      self[key] = value.cast<float>();
+      self[key] = value.cast<double>();
     } else if (pybind11::isinstance<pybind11::str>(value)) {
       self[key] = value.cast<std::string>();
     } else if (pybind11::isinstance<pybind11::bool_>(value)) {
-- 
2.43.0


From 13a165415109129a6026afe4ea0ddad66a2477ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 23/26] fix: let Python read a parameter back

vtargs.__getitem__ returned a type the module does not know, so every read
raised TypeError.
---
 src/pybind11/pyvotess.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index c92700c..23e0eec 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -26,10 +26,17 @@ pybind11::enum_<votess::device>(module, "device")
 
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
-  .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-      -> votess::vtargref & {
-    return self[key];
-  }, pybind11::return_value_policy::reference_internal)
+  .def("__getitem__", [](const votess::vtargs &self, const std::string &key) 
+      -> pybind11::object {
+    const auto &value = self[key];
+    try {
+      return pybind11::int_(value.get<long>());
+    } catch (const std::invalid_argument &) {}
+    try {
+      return pybind11::float_(value.get<double>());
+    } catch (const std::invalid_argument &) {}
+    return pybind11::str(value.get<std::string>());
+  })
   .def("__setitem__", [](votess::vtargs &self,
                          const std::string &key,
                          pybind11::object value) {
-- 
2.43.0


From f4a5858bd6e08d9edc91b2999355a1def2734075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:58 +0000
Subject: [PATCH 24/26] fix: savetxt says when the file could not be written

---
 src/dnn.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 422f9a0..2c53e0d 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -115,6 +115,9 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     fp<<"\n";
   }
   fp.close();
+  if (!fp) {
+    std::cerr<<"Failed to write file: "<<fname<<std::endl;
+  }
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 8c49d2993b414e26b937c86b94b9ac914b9eae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:58 +0000
Subject: [PATCH 25/26] fix: clvotess fails on a file it cannot read

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 23e585a..5baa25a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -215,6 +215,12 @@ main(int argc, char* argv[]) {
     xyzset.push_back(point);
 
   }
+
+  // a directory, say, can be opened but not read
+  if (file.bad()) {
+    std::cerr << "Error: Could not read file: " << infile << std::endl;
+    return 1;
+  }
   
   if (vtargs["k"].get<int>() == 0) {
 
-- 
2.43.0


From 7e8397a1168ce6ab4578b446f3dd184c99c3974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:58 +0000
Subject: [PATCH 26/26] fix: clvotess fails when the result cannot be written

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 5baa25a..3eb4790 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -233,6 +233,11 @@ main(int argc, char* argv[]) {
 
   dnn.print();
 
+  if (!std::cout) {
+    std::cerr << "Error: Could not write the result" << std::endl;
+    return 1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From efbf1fb51c1bd23dd94b6ad540ccfde8be6708bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 01/29] fix: restrict the NxN inverse pivot search to rows and
 columns not yet pivoted

---
 cml/matrix/detail/inverse.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..faced0f 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -163,9 +163,10 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   /* For each column */
   int N = M.rows();
   for(int i = 0; i < N; ++i) {
-    /* Find the pivot */
-    int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    /* Find the pivot, considering only rows and columns that have not yet been
+     * pivoted (the first candidate is always accepted): */
+    int row = -1, col = -1;
+    value_type pivot(0);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
@@ -173,7 +174,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
         if(pivoted[k]) continue;
 
         value_type mag = value_traits::fabs(M(j, k));
-        if(mag > pivot) {
+        if(row < 0 || mag > pivot) {
           pivot = mag;
           row = j;
           col = k;
-- 
2.43.0


From 1ff9df5a0cb216d050cfbe3fa4abfa2803a6f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 02/29] fix: undo the NxN inverse row interchanges in reverse
 order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index faced0f..432ab1b 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -210,8 +210,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Undo the row swaps by swapping columns, in reverse order */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From d7bd298b4d439778f2136ee226bccd56c5631d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 03/29] fix: use the magnitude of the diagonal entry when
 choosing an LU pivot

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From a44b8e3e7f0d70d8f3595a3c38ca3b053d81cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 04/29] fix: report a zero last pivot as singular in lu_pivot

---
 cml/matrix/detail/lu.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index bfe6f6a..46be59a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -77,6 +77,10 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
     }
   }
 
+  /* Check the last pivot, which has no rows below it to search: */
+  if(N > 0 && value_traits::fabs(M(N - 1, N - 1)) < value_traits::epsilon())
+    return 0;
+
   /* Done: */
   return flag;
 }
-- 
2.43.0


From 632d35461647c4aef320911f260561c357c5d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 05/29] fix: check the operands of cross after they are moved
 into the node

---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From b54a9763b2f20b55682c9ae2e1aceae4f685ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 06/29] fix: match quaternion components by name when assigning
 between element orders

---
 cml/quaternion/writable_quaternion.tpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..3a8d616 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -328,9 +328,12 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::operator+=(const readable_quaternion<ODT>& other) &
 {
+  /* Note: other may have a different element order. */
   using op_type = binary_plus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->get(W), other.w()));
+  this->put(X, op_type().apply(this->get(X), other.x()));
+  this->put(Y, op_type().apply(this->get(Y), other.y()));
+  this->put(Z, op_type().apply(this->get(Z), other.z()));
   return this->actual();
 }
 
@@ -348,9 +351,12 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::operator-=(const readable_quaternion<ODT>& other) &
 {
+  /* Note: other may have a different element order. */
   using op_type = binary_minus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->get(W), other.w()));
+  this->put(X, op_type().apply(this->get(X), other.x()));
+  this->put(Y, op_type().apply(this->get(Y), other.y()));
+  this->put(Z, op_type().apply(this->get(Z), other.z()));
   return this->actual();
 }
 
@@ -434,10 +440,11 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::assign(const readable_quaternion<ODT>& other)
 {
-  this->put(W, other.get(W));
-  this->put(X, other.get(X));
-  this->put(Y, other.get(Y));
-  this->put(Z, other.get(Z));
+  /* Note: other may have a different element order. */
+  this->put(W, other.w());
+  this->put(X, other.x());
+  this->put(Y, other.y());
+  this->put(Z, other.z());
   return this->actual();
 }
 
-- 
2.43.0


From 2954ba0c97e07b899c2ec66deb4051332b248b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 07/29] fix: keep quaternion exp and log finite for real
 quaternions

---
 cml/quaternion/writable_quaternion.tpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 3a8d616..68c0e2f 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -189,7 +189,13 @@ writable_quaternion<DT>::log() &
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
+
+  /* Note: arccos(w / |q|)/|v| is 1/|q| in the limit when q is real and
+   * positive, but is undefined when q is real and negative:
+   */
+  auto c = (lv > 0 || !(this->real() > 0))
+    ? element_traits::acos(this->real() / lq) / lv
+    : value_type(1) / lq;
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
@@ -218,7 +224,9 @@ writable_quaternion<DT>::exp() &
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+
+  /* Note: sin(|v|)/|v| is 1 in the limit when q is real: */
+  auto c = lv > 0 ? element_traits::sin(lv) / lv : value_type(1);
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 27413fc8697f902a671fb1413c14c081595e095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 08/29] fix: check sizes instead of resizing in vector and
 matrix += and -=

---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From fd00041d4b43b1ecac9c88e4ddb0b132d2f5fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 09/29] fix: move-assign fixed matrices through their layout

---
 cml/matrix/fixed_compiled.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..58e1498 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -89,8 +89,8 @@ matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
   for(int i = 0; i < R; ++i)
     for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+      s_access(*this, i, j, layout_tag()) =
+        std::move(s_access(other, i, j, layout_tag()));
   return *this;
 }
 
-- 
2.43.0


From 145d60b71a8254c010692439322553306e059074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 10/29] fix: transpose expression of a non-square fixed-size
 matrix has transposed storage

---
 cml/matrix/transpose_node.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..a0a9237 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/resize.h>
+#include <cml/storage/type_util.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,7 +23,10 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
+
+  /* Swap the dimensions of the subexpression's storage type: */
+  using storage_type = rebind_matrix_storage_t<reshape_storage_t<
+    typename sub_traits::storage_type, sub_traits::array_cols, sub_traits::array_rows>>;
   using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
-- 
2.43.0


From 6e1d35cb7b34875305041bb86a1c20b24b151c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 11/29] fix: basis vector of a non-square column-basis matrix
 has the row count as its size

---
 cml/matrix/basis_node.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/basis_node.h b/cml/matrix/basis_node.h
index 1016f4c..7b6dfd8 100644
--- a/cml/matrix/basis_node.h
+++ b/cml/matrix/basis_node.h
@@ -23,8 +23,10 @@ template<class Sub, int I> struct vector_traits<matrix_basis_node<Sub, I>>
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
 
-  /* Propagate the column count from the subexpression: */
-  static const int array_size = sub_traits::array_cols;
+  /* Propagate the basis vector size from the subexpression: */
+  static const int array_size = sub_traits::matrix_basis == col_basis_c
+    ? sub_traits::array_rows
+    : sub_traits::array_cols;
 
   /* Deduce the vector storage type: */
   using sub_storage_type = typename sub_traits::storage_type;
-- 
2.43.0


From 1b7e08717994a11434b1b3427222b6420d567604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 12/29] fix: quaternion product accepts operands of different
 expression types

---
 cml/quaternion/product.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..e65a075 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -42,9 +42,9 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  const auto sign = value_type_trait_of_t<result_type>(
+    std::is_same<cross_type, positive_cross>::value ? 1 : -1);
+  auto cross = sign * cml::cross(sub1.imaginary(), sub2.imaginary());
   auto imaginary =
     sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
 
-- 
2.43.0


From 6f267ad76c634b0bcb842cbbf75d48f905bbcc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 13/29] fix: Euler derivative matrices of odd orders have the
 right sign

---
 cml/mathlib/matrix/rotation.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..4b7fe40 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,14 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The angles of odd orders are negated above: */
+  if(odd) {
+    for(int r = 0; r < 3; ++r) {
+      for(int c = 0; c < 3; ++c)
+        m.set_basis_element(r, c, -m.basis_element(r, c));
+    }
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From bc2615fab24a013dc40411805041e47b301ac444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 14/29] fix: declare matrix_skew_symmetric_2D under its own
 name so the vector form links

---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From 0839dd9d675bc9a70516d7025ed8df9c4e47328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 15/29] fix: compute inverse scales in the matrix element type

---
 cml/mathlib/matrix/scale.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..5b69e78 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,8 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +96,8 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From ccf0ba425d451260b3f12a6b5f28f6c63f0e2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 16/29] fix: random_unit in a cone returns the axis when the
 random direction coincides with it

---
 cml/mathlib/random_unit.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..9098f90 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -68,6 +68,14 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   using O_traits = scalar_traits<O_type>;
   using Oa_traits = scalar_traits<decltype(O - a)>;
 
+  /* If n is parallel to d, then the slerps below are undefined, but d is
+   * already in the cone:
+   */
+  if(O == O_type(0)) {
+    n = d;
+    return;
+  }
+
   /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
    * (t=a/O) lying on the cone between d and n:
    */
-- 
2.43.0


From 3a24009b6867d9179ae5f8e083112c4c93c50037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 17/29] fix: lists and 2-D arrays can be assigned to
 temporaries

---
 cml/matrix/writable_matrix.h           | 2 +-
 cml/matrix/writable_matrix.tpp         | 5 +++--
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..d78e402 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 68c0e2f..6031dd0 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -328,7 +328,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..10ee7b0 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From 84c3dc06dbf64a5d911d1774c5e31e5d012dfd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 18/29] fix: fixed-size allocated matrix storage can be
 reshaped, so mixed-size expressions can be transposed

---
 cml/storage/allocated_selector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/storage/allocated_selector.h b/cml/storage/allocated_selector.h
index 97f028e..bd2cfb1 100644
--- a/cml/storage/allocated_selector.h
+++ b/cml/storage/allocated_selector.h
@@ -151,7 +151,7 @@ struct allocated<Allocator, Size1, Size2, matrix_storage_tag>
   static const int array_cols = Size2;
 
   /** Make a partially bound selector with size @c R x @c C. */
-  template<int R, int C> struct resize
+  template<int R, int C> struct reshape
   {
     using type = allocated<Allocator, R, C>;
   };
-- 
2.43.0


From ca6ee26084d006a76068298d2f393c84b824f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 19/29] fix: an operand moved from a const object is copied
 into the expression

---
 cml/common/type_util.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cml/common/type_util.h b/cml/common/type_util.h
index b4888cd..1a1599d 100644
--- a/cml/common/type_util.h
+++ b/cml/common/type_util.h
@@ -55,7 +55,7 @@ template<class T> using actual_type_of_t = typename actual_type_of<T>::type;
 /** If @c T is a reference type, @c type is defined as a reference to the
  * derived type of a statically polymorphic type @c T, or as @c T for other
  * types.  For example, if @c T is readable_matrix<S>&, then @c type is S&.
- * The const-ness of @c T is maintained for lvalue references.
+ * The const-ness of @c T is maintained.
  */
 template<class T> struct actual_operand_type_of
 {
@@ -68,12 +68,15 @@ template<class T> struct actual_operand_type_of
   /* Derived type of T: */
   using actual_type = actual_type_of_t<base_type>;
 
+  /* Propagate the const-ness of T: */
+  using value_type = cml::if_t<std::is_const<base_type>::value,
+    const actual_type, actual_type>;
+
 
   public:
   /* Build the reference type: */
-  using type = cml::if_t<std::is_rvalue_reference<T>::value, actual_type&&,
-    cml::if_t<std::is_const<base_type>::value, const actual_type&,
-      actual_type&>>;
+  using type = cml::if_t<std::is_rvalue_reference<T>::value, value_type&&,
+    value_type&>;
 };
 
 /** Convenience alias for actual_operand_type_of<>. */
-- 
2.43.0


From 78903ea75dc5c10f6f3389bc6b8c998368f08ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 20/29] fix: subvector, conjugate, imaginary and inverse keep
 const temporaries by value

---
 cml/quaternion/conjugate_ops.h   | 6 ++++++
 cml/quaternion/conjugate_ops.tpp | 7 +++++++
 cml/quaternion/imaginary_ops.h   | 6 ++++++
 cml/quaternion/imaginary_ops.tpp | 7 +++++++
 cml/quaternion/inverse_ops.h     | 6 ++++++
 cml/quaternion/inverse_ops.tpp   | 7 +++++++
 cml/vector/subvector_ops.h       | 6 ++++++
 cml/vector/subvector_ops.tpp     | 7 +++++++
 8 files changed, 52 insertions(+)

diff --git a/cml/quaternion/conjugate_ops.h b/cml/quaternion/conjugate_ops.h
index ed63122..ceb448f 100644
--- a/cml/quaternion/conjugate_ops.h
+++ b/cml/quaternion/conjugate_ops.h
@@ -20,6 +20,12 @@ auto conjugate(const readable_quaternion<Sub>& q) -> conjugate_node<const Sub&>;
 template<class Sub>
 auto conjugate(readable_quaternion<Sub>&& q) -> conjugate_node<Sub&&>;
 
+/** Return an expression node for the conjugate of the const temporary @c q, which
+ * is copied into the node.
+ */
+template<class Sub>
+auto conjugate(const readable_quaternion<Sub>&& q) -> conjugate_node<const Sub&&>;
+
 }  // namespace cml
 
 #define __CML_QUATERNION_CONJUGATE_OPS_TPP
diff --git a/cml/quaternion/conjugate_ops.tpp b/cml/quaternion/conjugate_ops.tpp
index ca29fbd..53d70bc 100644
--- a/cml/quaternion/conjugate_ops.tpp
+++ b/cml/quaternion/conjugate_ops.tpp
@@ -23,4 +23,11 @@ conjugate(readable_quaternion<Sub>&& q) -> conjugate_node<Sub&&>
   return conjugate_node<Sub&&>((Sub&&) q);
 }
 
+template<class Sub>
+inline auto
+conjugate(const readable_quaternion<Sub>&& q) -> conjugate_node<const Sub&&>
+{
+  return conjugate_node<const Sub&&>((const Sub&&) q);
+}
+
 }  // namespace cml
\ No newline at end of file
diff --git a/cml/quaternion/imaginary_ops.h b/cml/quaternion/imaginary_ops.h
index 7a5b10b..cb565ab 100644
--- a/cml/quaternion/imaginary_ops.h
+++ b/cml/quaternion/imaginary_ops.h
@@ -20,6 +20,12 @@ auto imaginary(const readable_quaternion<Sub>& q) -> imaginary_node<const Sub&>;
 template<class Sub>
 auto imaginary(readable_quaternion<Sub>&& q) -> imaginary_node<Sub&&>;
 
+/** Return an expression node for the imaginary part of the const temporary @c q, which
+ * is copied into the node.
+ */
+template<class Sub>
+auto imaginary(const readable_quaternion<Sub>&& q) -> imaginary_node<const Sub&&>;
+
 }  // namespace cml
 
 #define __CML_QUATERNION_IMAGINARY_OPS_TPP
diff --git a/cml/quaternion/imaginary_ops.tpp b/cml/quaternion/imaginary_ops.tpp
index e2e8912..2ba0785 100644
--- a/cml/quaternion/imaginary_ops.tpp
+++ b/cml/quaternion/imaginary_ops.tpp
@@ -23,4 +23,11 @@ imaginary(readable_quaternion<Sub>&& q) -> imaginary_node<Sub&&>
   return imaginary_node<Sub&&>((Sub&&) q);
 }
 
+template<class Sub>
+inline auto
+imaginary(const readable_quaternion<Sub>&& q) -> imaginary_node<const Sub&&>
+{
+  return imaginary_node<const Sub&&>((const Sub&&) q);
+}
+
 }  // namespace cml
\ No newline at end of file
diff --git a/cml/quaternion/inverse_ops.h b/cml/quaternion/inverse_ops.h
index c92cd12..2c0cd44 100644
--- a/cml/quaternion/inverse_ops.h
+++ b/cml/quaternion/inverse_ops.h
@@ -20,6 +20,12 @@ auto inverse(const readable_quaternion<Sub>& q) -> inverse_node<const Sub&>;
 template<class Sub>
 auto inverse(readable_quaternion<Sub>&& q) -> inverse_node<Sub&&>;
 
+/** Return an expression node for the inverse of the const temporary @c q, which
+ * is copied into the node.
+ */
+template<class Sub>
+auto inverse(const readable_quaternion<Sub>&& q) -> inverse_node<const Sub&&>;
+
 }  // namespace cml
 
 #define __CML_QUATERNION_INVERSE_OPS_TPP
diff --git a/cml/quaternion/inverse_ops.tpp b/cml/quaternion/inverse_ops.tpp
index 224619e..967be0b 100644
--- a/cml/quaternion/inverse_ops.tpp
+++ b/cml/quaternion/inverse_ops.tpp
@@ -23,4 +23,11 @@ inverse(readable_quaternion<Sub>&& q) -> inverse_node<Sub&&>
   return inverse_node<Sub&&>((Sub&&) q);
 }
 
+template<class Sub>
+inline auto
+inverse(const readable_quaternion<Sub>&& q) -> inverse_node<const Sub&&>
+{
+  return inverse_node<const Sub&&>((const Sub&&) q);
+}
+
 }  // namespace cml
\ No newline at end of file
diff --git a/cml/vector/subvector_ops.h b/cml/vector/subvector_ops.h
index 3e92637..1738ea3 100644
--- a/cml/vector/subvector_ops.h
+++ b/cml/vector/subvector_ops.h
@@ -22,6 +22,12 @@ auto subvector(const readable_vector<Sub>& sub, int i)
 template<class Sub>
 auto subvector(readable_vector<Sub>&& sub) -> subvector_node<Sub&&>;
 
+/** Return an expression node for subvector @c i of the const temporary @c sub, which
+ * is copied into the node.
+ */
+template<class Sub>
+auto subvector(const readable_vector<Sub>&& sub, int i) -> subvector_node<const Sub&&>;
+
 }  // namespace cml
 
 #define __CML_VECTOR_SUBVECTOR_OPS_TPP
diff --git a/cml/vector/subvector_ops.tpp b/cml/vector/subvector_ops.tpp
index 65aee65..048edd7 100644
--- a/cml/vector/subvector_ops.tpp
+++ b/cml/vector/subvector_ops.tpp
@@ -22,4 +22,11 @@ subvector(readable_vector<Sub>&& sub, int i) -> subvector_node<Sub&&>
   return subvector_node<Sub&&>((Sub&&) sub, i);
 }
 
+template<class Sub>
+inline auto
+subvector(const readable_vector<Sub>&& sub, int i) -> subvector_node<const Sub&&>
+{
+  return subvector_node<const Sub&&>((const Sub&&) sub, i);
+}
+
 }  // namespace cml
\ No newline at end of file
-- 
2.43.0


From 48dd91f4eb5746d50420e75fa74584d501fd2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 21/29] fix: lu_solve accumulates in the promoted element type

---
 cml/matrix/lu.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/lu.tpp b/cml/matrix/lu.tpp
index 108d358..c4977c8 100644
--- a/cml/matrix/lu.tpp
+++ b/cml/matrix/lu.tpp
@@ -56,7 +56,7 @@ inline void
 lu_solve(const readable_matrix<LUSub>& LU, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<LUSub, BSub, XSub>;
 
   cml::check_square(LU);
   cml::check_same_inner_size(LU, x);
@@ -104,7 +104,7 @@ inline void
 lu_solve(const lu_pivot_result<Matrix>& lup, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<Matrix, BSub, XSub>;
 
   cml::check_same_inner_size(lup.lu, x);
   cml::check_same_inner_size(lup.lu, b);
-- 
2.43.0


From 7d4170a6d752f57b849ac34e986b3ce4ada71fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 22/29] fix: in-place scaling by an element of the object
 itself uses the element's original value

v *= v[0] took the scalar by reference, so the elements after the one referred
to were scaled by the already scaled element.  The same held for matrices and
quaternions and for division.
---
 cml/matrix/writable_matrix.tpp         | 6 ++++--
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index d78e402..50ad5d7 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -373,7 +373,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of *this.
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -395,7 +396,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of *this.
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 6031dd0..f593816 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -404,7 +404,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of *this.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -427,7 +428,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of *this.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 10ee7b0..0d42e26 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -353,8 +353,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of *this.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -375,8 +376,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of *this.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From 27f610ffe44a30abbc03fc2941c5b2b12cbb298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 23/29] fix: vector set() may be given elements of the vector
 itself

v.set(-v[1], v[0]) took its arguments by reference, so later elements read
already overwritten ones, and a resizing set() read freed memory.
---
 cml/vector/writable_vector.h   | 5 ++++-
 cml/vector/writable_vector.tpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cml/vector/writable_vector.h b/cml/vector/writable_vector.h
index 9f6a531..6cc9b3a 100644
--- a/cml/vector/writable_vector.h
+++ b/cml/vector/writable_vector.h
@@ -357,8 +357,11 @@ class writable_vector : public readable_vector<DerivedT>
    *
    * @note This depends upon implicit conversions of the elements to the
    * vector value_type.
+   *
+   * @note The elements are passed by value, since they may refer to elements
+   * of this vector.
    */
-  template<class... Elements> DerivedT& assign_elements(const Elements&... eN);
+  template<class... Elements> DerivedT& assign_elements(Elements... eN);
 
 
   protected:
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 0d42e26..88a0b68 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -451,7 +451,7 @@ writable_vector<DT>::assign(const readable_vector<ODT>& other, const Es&... eN)
 template<class DT>
 template<class... Es>
 DT&
-writable_vector<DT>::assign_elements(const Es&... eN)
+writable_vector<DT>::assign_elements(Es... eN)
 {
   static const int N = int(sizeof...(eN));
   detail::check_or_resize(*this, int_c<N>());
-- 
2.43.0


From 804898a6efe83586d87af8621934d2ecdef641fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/29] fix: products with an empty inner dimension are zero

The product loops read element 0 of each operand before the loop, which does
not exist when the inner dimension is 0 (e.g. 2x0 times 0x3).
---
 cml/matrix/matrix_product.tpp | 4 ++--
 cml/matrix/vector_product.tpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..7d1cef8 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -27,8 +27,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
-      auto m = sub1(i, 0) * sub2(0, j);
-      for(int k = 1; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
+      decltype(sub1(i, 0) * sub2(0, j)) m(0);
+      for(int k = 0; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
       M(i, j) = m;
     }
   }
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..ad9e9ef 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -27,8 +27,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_rows_of(sub1));
   for(int i = 0; i < sub1.rows(); ++i) {
-    auto m = sub1(i, 0) * sub2[0];
-    for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
+    decltype(sub1(i, 0) * sub2[0]) m(0);
+    for(int k = 0; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
     v[i] = m;
   }
   return v;
@@ -50,8 +50,8 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_cols_of(sub2));
   for(int j = 0; j < sub2.cols(); ++j) {
-    auto m = sub1[0] * sub2(0, j);
-    for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
+    decltype(sub1[0] * sub2(0, j)) m(0);
+    for(int k = 0; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
     v[j] = m;
   }
   return v;
-- 
2.43.0


From 16b1aa06bcda1599542037411359892effbbf0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 25/29] fix: printing an empty vector reads no element

---
 cml/util/vector_print.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..fc0647b 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,7 +15,7 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
+  if(v.size() > 0) os << v[0];
   for(int i = 1; i < v.size(); ++i) os << " " << v[i];
   return os;
 }
-- 
2.43.0


From a0e145de3f405b4168221c819465ec7c6a9f39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 26/29] fix: matrix32f names a 3x2 matrix

matrix<float, fixed<2, 3>> was named matrix32f, and matrix23f was missing.
---
 cml/matrix/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/types.h b/cml/matrix/types.h
index 70810df..b4cd13b 100644
--- a/cml/matrix/types.h
+++ b/cml/matrix/types.h
@@ -29,7 +29,8 @@ using externalmni = matrix<int, external<>>;
 using matrix22f = matrix<float, fixed<2, 2>>;
 using matrix33f = matrix<float, fixed<3, 3>>;
 using matrix44f = matrix<float, fixed<4, 4>>;
-using matrix32f = matrix<float, fixed<2, 3>>;
+using matrix23f = matrix<float, fixed<2, 3>>;
+using matrix32f = matrix<float, fixed<3, 2>>;
 using matrix34f = matrix<float, fixed<3, 4>>;
 using matrixf = matrix<float, dynamic<>>;
 using external22f = matrix<float, external<2, 2>>;
-- 
2.43.0


From 083bcc3b6178b2cda225bb6562c9017ce6e2e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 27/29] fix: member forms of const temporaries copy instead of
 moving

subvector(), normalize(), imaginary(), conjugate() and inverse() were declared
const&& and cast away const, so that calling them on a const rvalue emptied
the (const) object.  Non-const rvalues are still moved into the node.
---
 cml/quaternion/readable_quaternion.h   | 28 +++++++++++++++++--
 cml/quaternion/readable_quaternion.tpp | 38 +++++++++++++++++++++++---
 cml/vector/readable_vector.h           | 14 +++++++++-
 cml/vector/readable_vector.tpp         | 20 ++++++++++++--
 4 files changed, 90 insertions(+), 10 deletions(-)

diff --git a/cml/quaternion/readable_quaternion.h b/cml/quaternion/readable_quaternion.h
index 15c8d62..8a044af 100644
--- a/cml/quaternion/readable_quaternion.h
+++ b/cml/quaternion/readable_quaternion.h
@@ -84,7 +84,12 @@ template<class DerivedT> class readable_quaternion
   /** Return the imaginary part of the quaternion as a vector expression,
      * moving the source into the node.
      */
-  imaginary_node<DerivedT&&> imaginary() const&&;
+  imaginary_node<DerivedT&&> imaginary() &&;
+
+  /** Return the imaginary part of a const temporary as an expression node,
+     * copying the source into the node.
+     */
+  imaginary_node<const DerivedT&&> imaginary() const&&;
 
   /** Return the squared length of the quaternion. */
   value_type length_squared() const;
@@ -105,6 +110,13 @@ template<class DerivedT> class readable_quaternion
      */
   quaternion_scalar_node<DerivedT&&, value_type,
     op::binary_divide<value_type, value_type>>
+  normalize() &&;
+
+  /** Return the normalized quaternion as an expression node, copying the const
+     * temporary source into the node.
+     */
+  quaternion_scalar_node<const DerivedT&&, value_type,
+    op::binary_divide<value_type, value_type>>
   normalize() const&&;
 
   /** Return the conjugate as an expression node. */
@@ -113,7 +125,12 @@ template<class DerivedT> class readable_quaternion
   /** Return the conjugate as an expression node, moving the source into
      * the node.
      */
-  conjugate_node<DerivedT&&> conjugate() const&&;
+  conjugate_node<DerivedT&&> conjugate() &&;
+
+  /** Return the conjugate of a const temporary as an expression node,
+     * copying the source into the node.
+     */
+  conjugate_node<const DerivedT&&> conjugate() const&&;
 
   /** Return the inverse as an expression node. */
   inverse_node<const DerivedT&> inverse() const&;
@@ -121,7 +138,12 @@ template<class DerivedT> class readable_quaternion
   /** Return the inverse as an expression node, moving the source into
      * the node.
      */
-  inverse_node<DerivedT&&> inverse() const&&;
+  inverse_node<DerivedT&&> inverse() &&;
+
+  /** Return the inverse of a const temporary as an expression node,
+     * copying the source into the node.
+     */
+  inverse_node<const DerivedT&&> inverse() const&&;
 
 
   protected:
diff --git a/cml/quaternion/readable_quaternion.tpp b/cml/quaternion/readable_quaternion.tpp
index 47ec69e..f0ca00d 100644
--- a/cml/quaternion/readable_quaternion.tpp
+++ b/cml/quaternion/readable_quaternion.tpp
@@ -87,11 +87,18 @@ readable_quaternion<DT>::imaginary() const& -> imaginary_node<const DT&>
 
 template<class DT>
 auto
-readable_quaternion<DT>::imaginary() const&& -> imaginary_node<DT&&>
+readable_quaternion<DT>::imaginary() && -> imaginary_node<DT&&>
 {
   return imaginary_node<DT&&>((DT&&) *this);
 }
 
+template<class DT>
+auto
+readable_quaternion<DT>::imaginary() const&& -> imaginary_node<const DT&&>
+{
+  return imaginary_node<const DT&&>((const DT&&) *this);
+}
+
 template<class DT>
 auto
 readable_quaternion<DT>::length_squared() const -> value_type
@@ -127,13 +134,22 @@ readable_quaternion<DT>::normalize() const& -> quaternion_scalar_node<const DT&,
 
 template<class DT>
 auto
-readable_quaternion<DT>::normalize() const&& -> quaternion_scalar_node<DT&&,
+readable_quaternion<DT>::normalize() && -> quaternion_scalar_node<DT&&,
   value_type, op::binary_divide<value_type, value_type>>
 {
   return quaternion_scalar_node<DT&&, value_type,
     op::binary_divide<value_type, value_type>>((DT&&) *this, this->length());
 }
 
+template<class DT>
+auto
+readable_quaternion<DT>::normalize() const&& -> quaternion_scalar_node<const DT&&,
+  value_type, op::binary_divide<value_type, value_type>>
+{
+  return quaternion_scalar_node<const DT&&, value_type,
+    op::binary_divide<value_type, value_type>>((const DT&&) *this, this->length());
+}
+
 template<class DT>
 auto
 readable_quaternion<DT>::conjugate() const& -> conjugate_node<const DT&>
@@ -143,11 +159,18 @@ readable_quaternion<DT>::conjugate() const& -> conjugate_node<const DT&>
 
 template<class DT>
 auto
-readable_quaternion<DT>::conjugate() const&& -> conjugate_node<DT&&>
+readable_quaternion<DT>::conjugate() && -> conjugate_node<DT&&>
 {
   return conjugate_node<DT&&>((DT&&) *this);
 }
 
+template<class DT>
+auto
+readable_quaternion<DT>::conjugate() const&& -> conjugate_node<const DT&&>
+{
+  return conjugate_node<const DT&&>((const DT&&) *this);
+}
+
 template<class DT>
 auto
 readable_quaternion<DT>::inverse() const& -> inverse_node<const DT&>
@@ -157,9 +180,16 @@ readable_quaternion<DT>::inverse() const& -> inverse_node<const DT&>
 
 template<class DT>
 auto
-readable_quaternion<DT>::inverse() const&& -> inverse_node<DT&&>
+readable_quaternion<DT>::inverse() && -> inverse_node<DT&&>
 {
   return inverse_node<DT&&>((DT&&) *this);
 }
 
+template<class DT>
+auto
+readable_quaternion<DT>::inverse() const&& -> inverse_node<const DT&&>
+{
+  return inverse_node<const DT&&>((const DT&&) *this);
+}
+
 }  // namespace cml
diff --git a/cml/vector/readable_vector.h b/cml/vector/readable_vector.h
index 5148f22..095cd5f 100644
--- a/cml/vector/readable_vector.h
+++ b/cml/vector/readable_vector.h
@@ -82,6 +82,13 @@ template<class DerivedT> class readable_vector
      */
   vector_scalar_node<DerivedT&&, value_type,
     op::binary_divide<value_type, value_type>>
+  normalize() &&;
+
+  /** Return the normalized vector as an expression node, copying the const
+     * temporary source into the node.
+     */
+  vector_scalar_node<const DerivedT&&, value_type,
+    op::binary_divide<value_type, value_type>>
   normalize() const&&;
 
   /** Return subvector @c i as an expression node. */
@@ -90,7 +97,12 @@ template<class DerivedT> class readable_vector
   /** Return subvector @c i as an expression node, moving the source
      * into the node.
      */
-  subvector_node<DerivedT&&> subvector(int i) const&&;
+  subvector_node<DerivedT&&> subvector(int i) &&;
+
+  /** Return subvector @c i of a const temporary as an expression node,
+     * copying the source into the node.
+     */
+  subvector_node<const DerivedT&&> subvector(int i) const&&;
 
 
   protected:
diff --git a/cml/vector/readable_vector.tpp b/cml/vector/readable_vector.tpp
index 38edcd9..ed6c904 100644
--- a/cml/vector/readable_vector.tpp
+++ b/cml/vector/readable_vector.tpp
@@ -81,13 +81,22 @@ readable_vector<DT>::normalize() const& -> vector_scalar_node<const DT&,
 
 template<class DT>
 auto
-readable_vector<DT>::normalize() const&& -> vector_scalar_node<DT&&, value_type,
+readable_vector<DT>::normalize() && -> vector_scalar_node<DT&&, value_type,
   op::binary_divide<value_type, value_type>>
 {
   return vector_scalar_node<DT&&, value_type,
     op::binary_divide<value_type, value_type>>((DT&&) *this, this->length());
 }
 
+template<class DT>
+auto
+readable_vector<DT>::normalize() const&& -> vector_scalar_node<const DT&&, value_type,
+  op::binary_divide<value_type, value_type>>
+{
+  return vector_scalar_node<const DT&&, value_type,
+    op::binary_divide<value_type, value_type>>((const DT&&) *this, this->length());
+}
+
 template<class DT>
 auto
 readable_vector<DT>::subvector(int i) const& -> subvector_node<const DT&>
@@ -97,9 +106,16 @@ readable_vector<DT>::subvector(int i) const& -> subvector_node<const DT&>
 
 template<class DT>
 auto
-readable_vector<DT>::subvector(int i) const&& -> subvector_node<DT&&>
+readable_vector<DT>::subvector(int i) && -> subvector_node<DT&&>
 {
   return subvector_node<DT&&>((DT&&) *this, i);
 }
 
+template<class DT>
+auto
+readable_vector<DT>::subvector(int i) const&& -> subvector_node<const DT&&>
+{
+  return subvector_node<const DT&&>((const DT&&) *this, i);
+}
+
 }  // namespace cml
\ No newline at end of file
-- 
2.43.0


From 81edcf08c2568c518116b3e645a27f183bb984ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 28/29] fix: dynamic vectors and matrices return no null block
 to their allocator

The destructors and resize_fast() passed a null pointer to deallocate() when
there was no array; an allocator accepts only what it has handed out.
---
 cml/matrix/dynamic_allocated.tpp | 5 +++--
 cml/vector/dynamic_allocated.tpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..a399c7c 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -110,7 +110,8 @@ matrix<E, dynamic<A>, BO, L>::~matrix()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -221,7 +222,7 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
       typename std::is_trivially_destructible<E>::type());
 
     /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, n_old);
+    if(data) allocator_traits::deallocate(allocator, data, n_old);
   } catch(...) {
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 3bd5c6f..0cc833d 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -98,7 +98,8 @@ template<class E, class A> vector<E, dynamic<A>>::~vector()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -194,7 +195,7 @@ vector<E, dynamic<A>>::resize_fast(int n)
       typename std::is_trivially_destructible<E>::type());
 
     /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, size);
+    if(data) allocator_traits::deallocate(allocator, data, size);
   } catch(...) {
     allocator_traits::deallocate(allocator, copy, n);
     throw;
-- 
2.43.0


From 98faf4b49ee3700c86e7c24825370eac730b2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 29/29] fix: dynamic matrix constructors release their array
 when they throw

Constructing a resizable matrix from sizes and a list or array of the wrong
number of elements allocated the array, threw, and never released it.
---
 cml/matrix/dynamic_allocated.h   | 4 +---
 cml/matrix/dynamic_allocated.tpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..a09b93d 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,9 +155,7 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix()  // so that the array is released if the assignment throws
   {
     this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index a399c7c..efaa5ec 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -61,9 +61,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()  // so that the array is released if the assignment throws
 {
   this->resize_fast(rows, cols);
   this->assign(array);
-- 
2.43.0


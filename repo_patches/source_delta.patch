From 3ccef347121254260b67314004d80fdf5240d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 01/41] fix: order dyadics of different resolution by value

operator<, <=, > and >= on Dyadic rescaled the operand with the finer
resolution instead of the coarser one, so e.g. 1/2^0 < 1/2^1 was true.
---
 intervals/src/dyadic.cpp | 60 +++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..734083d 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -34,6 +34,7 @@
 
 #include "roughpy/core/types.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <ostream>
 
@@ -100,45 +101,48 @@ bool Dyadic::rebase(Dyadic::power_t resolution)
     return resolution == m_power;
 }
 
-bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+namespace {
+
+/*
+ * Three-way comparison of the rational values k_1/2^{n_1} and k_2/2^{n_2}. The
+ * operand with the coarser resolution is brought to the finer one in 64-bit
+ * arithmetic. A non-zero multiplier that must be shifted by at least the number
+ * of bits in a multiplier exceeds every other multiplier, so only its sign is
+ * needed.
+ */
+int compare_values(const Dyadic& lhs, const Dyadic& rhs) noexcept
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
+    const auto rescale = [](int64_t k, int64_t rel_resolution) -> int64_t {
+        constexpr int64_t max_shift = 8 * sizeof(Dyadic::multiplier_t);
+        if (k == 0 || rel_resolution <= 0) { return k; }
+        return k * (int64_t(1) << std::min<int64_t>(rel_resolution, max_shift));
+    };
+
+    const int64_t difference
+            = static_cast<int64_t>(rhs.power()) - lhs.power();
+    const int64_t lmul = rescale(lhs.multiplier(), difference);
+    const int64_t rmul = rescale(rhs.multiplier(), -difference);
+
+    return static_cast<int>(lmul > rmul) - static_cast<int>(lmul < rmul);
+}
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+}// namespace
+
+bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+{
+    return compare_values(lhs, rhs) < 0;
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return compare_values(lhs, rhs) <= 0;
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return compare_values(lhs, rhs) > 0;
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return compare_values(lhs, rhs) >= 0;
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
-- 
2.43.0


From a3548c55b0f18679eaeb96264913d2babbaa8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 02/41] fix: rational_equals for distant resolutions and
 extreme multipliers

The power of two was computed by a shift that overflows once the
resolutions differ by 31 or more (1/2^32 compared equal to 1), and
comparing a multiplier of -2^31 with -1 divided the minimum integer by -1.
---
 intervals/src/dyadic.cpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index 734083d..9c899f2 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -154,27 +154,7 @@ bool rpy::intervals::dyadic_equals(const Dyadic& lhs, const Dyadic& rhs)
 }
 bool rpy::intervals::rational_equals(const Dyadic& lhs, const Dyadic& rhs)
 {
-    /*
-     * If both multipliers are zero then both rationals are zero, regardless of
-     * power. Otherwise, if either one is zero but not the other then they
-     * cannot be equal.
-     */
-    if (lhs.multiplier() == 0 && rhs.multiplier() == 0) { return true; }
-    if (lhs.multiplier() == 0 || rhs.multiplier() == 0) { return false; }
-
-    Dyadic::multiplier_t ratio;
-    if (lhs.multiplier() % rhs.multiplier() == 0
-        && (ratio = lhs.multiplier() / rhs.multiplier()) >= 1) {
-        Dyadic::power_t rel_tolerance = lhs.power() - rhs.power();
-        if (rel_tolerance < 0) { return false; }
-        return ratio == Dyadic::int_two_to_int_power(rel_tolerance);
-    } else if (rhs.multiplier() % lhs.multiplier() == 0
-               && (ratio = rhs.multiplier() / lhs.multiplier()) >= 1) {
-        Dyadic::power_t rel_tolerance = rhs.power() - lhs.power();
-        if (rel_tolerance < 0) { return false; }
-        return ratio == Dyadic::int_two_to_int_power(rel_tolerance);
-    }
-    return false;
+    return compare_values(lhs, rhs) == 0;
 }
 
 #define RPY_EXPORT_MACRO ROUGHPY_INTERVALS_EXPORT
-- 
2.43.0


From 41e9d103c4440b7db75dd1897012fa5da72f2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 03/41] fix: keep the type of (a, b] dyadic intervals when
 expanding or testing alignment

expand_interval and aligned rebuilt the interval with the default type
[a, b), so neither worked for Opencl intervals.
---
 intervals/src/dyadic_interval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..93355eb 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -130,7 +130,7 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(), m_power - arg, m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
@@ -153,7 +153,8 @@ bool DyadicInterval::aligned() const
     DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
                           m_interval_type};
     return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+            DyadicInterval{static_cast<const Dyadic&>(parent), m_power,
+                           m_interval_type});
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
-- 
2.43.0


From 8622ccfe6e5fe0d6c499e1746aa26d1c2639c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:09 +0000
Subject: [PATCH 04/41] fix: read zero beyond the stored part of a dense vector

---
 vendored/libalgebra_lite/dense_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..b76a14d 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,10 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        // Only the leading part of the vector is stored, the rest is zero
+        const size_type index = p_basis->key_to_index(idx);
+        if (index >= m_storage.size()) { return coefficient_ring::zero(); }
+        return m_storage[index];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From 62f4e613672d4f94cd9c6dea9a38ce3ba6840542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:29 +0000
Subject: [PATCH 05/41] fix: subtracting a sparse vector from itself erased
 entries still being visited

---
 vendored/libalgebra_lite/sparse_vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..3ec7448 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -462,20 +462,22 @@ public:
 
         const auto& zero = coefficient_ring::zero();
 
-        for (; rit != rend; ++rit) {
-            auto it = m_data.find(rit->first);
+        while (rit != rend) {
+            // rhs might be *this, so step past the item before it can be erased
+            const auto ritem = rit++;
+            auto it = m_data.find(ritem->first);
             if (it != lend) {
-                op(it->second, rit->second);
+                op(it->second, ritem->second);
                 if (it->second == zero) {
                     m_data.erase(it);
                 } else {
                     update_degree_for_key(it->first);
                 }
             } else {
-                assert(rit->second != zero);
+                assert(ritem->second != zero);
                 scalar_type new_val = zero;
-                op(new_val, rit->second);
-                insert_new_value(rit->first, new_val);
+                op(new_val, ritem->second);
+                insert_new_value(ritem->first, new_val);
             }
         }
 
-- 
2.43.0


From cdc8b132e504eb696a88b846994c654d3428f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 06/41] fix: treat an empty algebra as zero in arithmetic

---
 .../roughpy/algebra/algebra_base_impl.h       | 25 ++++++++++++-------
 algebra/src/algebra_base.cpp                  |  3 ++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..ad0870b 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -318,14 +318,12 @@ template <
 traits::algebra_of<Interface>
 AlgebraBase<Interface, DerivedImpl>::mul(const algebra_t& rhs) const
 {
-    if (is_equivalent_to_zero(rhs)) {
-        if (is_equivalent_to_zero(*this)) { return algebra_t(); }
-        return p_impl->clone();
-    }
+    // The product with an empty (zero) algebra is zero
+    if (is_equivalent_to_zero(*this)) { return algebra_t(); }
+    if (is_equivalent_to_zero(rhs)) { return p_impl->zero_like(); }
 
     RPY_CHECK_CONTEXTS(rhs);
 
-    if (is_equivalent_to_zero(*this)) { return rhs.p_impl->clone(); }
     return p_impl->mul(rhs);
 }
 
@@ -477,7 +475,10 @@ traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::add_inplace(const algebra_t& rhs)
 {
     if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) {
+        downcast(*this) = rhs;
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->add_inplace(rhs);
     return downcast(*this);
@@ -489,7 +490,10 @@ traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::sub_inplace(const algebra_t& rhs)
 {
     if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) {
+        downcast(*this) = rhs.uminus();
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->sub_inplace(rhs);
     return downcast(*this);
@@ -500,8 +504,11 @@ template <
 traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::mul_inplace(const algebra_t& rhs)
 {
-    if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) { return downcast(*this); }
+    if (is_equivalent_to_zero(rhs)) {
+        p_impl->clear();
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->mul_inplace(rhs);
     return downcast(*this);
diff --git a/algebra/src/algebra_base.cpp b/algebra/src/algebra_base.cpp
index c084b97..b69d0ae 100644
--- a/algebra/src/algebra_base.cpp
+++ b/algebra/src/algebra_base.cpp
@@ -88,7 +88,8 @@ void rpy::algebra::dtl::check_contexts_compatible(
         const context_pointer& ref, const context_pointer& other
 )
 {
-    if (ref == other) { return; }
+    // An empty algebra is a zero that belongs to every context.
+    if (!ref || !other || ref == other) { return; }
 
     RPY_CHECK(ref->check_compatible(*other));
 }
-- 
2.43.0


From dabe17766f19f2f27f2267224aac1c7dbd267a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 07/41] fix: right parent of a word in tensor_basis::parents

---
 vendored/libalgebra_lite/tensor_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From fb26b7a3e6f3bf12aa4cb30e7bb733d5cb372fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 08/41] fix: adjoint of left multiplication for sparse
 operands, and the degree of its result

---
 vendored/libalgebra_lite/free_tensor.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..1d428d9 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -971,7 +971,7 @@ private:
             const auto& val = pr.value();
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -988,7 +988,7 @@ private:
         const auto& powers = basis.powers();
 
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1000,7 +1000,9 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr()
+                        + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
@@ -1025,7 +1027,7 @@ private:
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
-- 
2.43.0


From f52395ea29c57ef8e09618d79e56c29b75f64705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 09/41] fix: two-element cbh ignored the storage asked for and
 failed on empty elements

---
 algebra/src/context.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebra/src/context.cpp b/algebra/src/context.cpp
index af99928..880d29a 100644
--- a/algebra/src/context.cpp
+++ b/algebra/src/context.cpp
@@ -209,10 +209,8 @@ Lie Context::cbh(Slice<const Lie*> lies, VectorType vtype) const
 
 Lie Context::cbh(const Lie& left, const Lie& right, VectorType vtype) const
 {
-    FreeTensor tmp = lie_to_tensor(left).exp();
-    tmp.fmexp(lie_to_tensor(right));
-
-    return tensor_to_lie(tmp.log());
+    const Lie* lies[] = {&left, &right};
+    return cbh(Slice<const Lie*>(lies, 2), vtype);
 }
 
 static std::recursive_mutex s_context_lock;
-- 
2.43.0


From 622b866eb328190386f88c02508ddd2a3b0d0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 10/41] fix: truncate sparse data to the basis when
 constructing or converting elements

---
 algebra/src/lite_context.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..40bf72a 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -452,11 +452,12 @@ OutType LiteContext<Coefficients>::construct_impl(
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto size = data.data.size();
+    const auto basis_size = static_cast<dimn_t>(basis->size(-1));
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
-        tmp.resize(data.data.size());
+        tmp.resize(size);
         scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
@@ -469,13 +470,15 @@ OutType LiteContext<Coefficients>::construct_impl(
         const auto* keys = data.data.keys();
 
         for (dimn_t i = 0; i < size; ++i) {
+            // Terms beyond the depth of the basis are truncated
+            if (static_cast<dimn_t>(keys[i]) >= basis_size) { continue; }
             result[basis->index_to_key(keys[i])] = raw_data[i];
         }
 
     } else {
         // Dense data
 
-        for (dimn_t i = 0; i < size; ++i) {
+        for (dimn_t i = 0; i < std::min(size, basis_size); ++i) {
             // Replace this with a more efficient method once it's implemented
             // at the lower level
             result[basis->index_to_key(i)] = raw_data[i];
-- 
2.43.0


From a0ff577d30ae15893e9626c65f6faf3131a16f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 11/41] fix: reading and writing coefficients of sparse
 elements through operator[]

---
 .../sparse_mutable_ref_scalar_trait.h         | 16 +++++++++----
 scalars/include/roughpy/scalars/scalar.h      | 18 +++++++++++++++
 scalars/src/scalar.cpp                        |  4 ++++
 scalars/src/scalar/arithmetic.cpp             | 23 ++++++++++++++++---
 4 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..7ea0368 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -77,7 +77,10 @@ private:
 public:
     void set_value(const Scalar& value) override;
 
-    const void* pointer() const noexcept override { return &m_data; }
+    const void* pointer() const noexcept override
+    {
+        return &static_cast<const value_type&>(m_data);
+    }
 
 private:
     template <typename F>
@@ -133,14 +136,17 @@ public:
 
     static const ScalarType* get_type() noexcept
     {
-        return ScalarType::of<value_type>();
+        return *ScalarType::of<value_type>();
     }
 
     static Scalar make(reference arg)
     {
-        return Scalar(std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
-                std::move(arg)
-        ));
+        return Scalar(
+                get_type(),
+                std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
+                        std::move(arg)
+                )
+        );
     }
 };
 
diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..3870767 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -213,6 +213,13 @@ class ROUGHPY_SCALARS_EXPORT Scalar
 
     void copy_from_opaque_pointer(devices::TypeInfo info, const void* src);
 
+    bool is_interface() const noexcept
+    {
+        const auto mode = p_type_and_content_type.get_enumeration();
+        return mode == dtl::ScalarContentType::Interface
+                || mode == dtl::ScalarContentType::OwnedInterface;
+    }
+
 protected:
     type_pointer packed_type() const noexcept
     {
@@ -327,6 +334,17 @@ public:
           interface_ptr(std::move(iface).release())
     {}
 
+    template <
+            typename I,
+            typename = enable_if_t<is_base_of_v<ScalarInterface, I>>>
+    explicit Scalar(const ScalarType* type, std::unique_ptr<I>&& iface)
+        : p_type_and_content_type(
+                  type,
+                  dtl::ScalarContentType::OwnedInterface
+          ),
+          interface_ptr(std::move(iface).release())
+    {}
+
     explicit Scalar(const ScalarType* type, int64_t num, int64_t denom);
 
     Scalar(const Scalar& other);
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..65cea7d 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -296,6 +296,8 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                        "is not allowed"
 //                    );
             }
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(
                 mut_pointer(),
@@ -312,6 +314,8 @@ Scalar& Scalar::operator=(Scalar&& other) noexcept
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
         }
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..fc08b13 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -204,7 +204,11 @@ Scalar& Scalar::operator+=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, AddInplace());
+        if (is_interface()) {
+            interface_ptr->add_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, AddInplace());
+        }
     }
     return *this;
 }
@@ -213,7 +217,11 @@ Scalar& Scalar::operator-=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, SubInplace());
+        if (is_interface()) {
+            interface_ptr->sub_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, SubInplace());
+        }
     }
     return *this;
 }
@@ -222,7 +230,11 @@ Scalar& Scalar::operator*=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!fast_is_zero() && !other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, MulInplace());
+        if (is_interface()) {
+            interface_ptr->mul_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, MulInplace());
+        }
     } else {
         operator=(0);
     }
@@ -279,6 +291,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (is_interface()) {
+        interface_ptr->div_inplace(other);
+        return *this;
+    }
+
     /*
      * We need to check some additional things here.
      * Division need not be defined for all scalar types. For instance, integers
-- 
2.43.0


From 67bc0b61e61593fcbb5d674f566813391854704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 12/41] fix: Lie sizes of a context without bases, and contexts
 of depth zero

---
 algebra/src/context.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebra/src/context.cpp b/algebra/src/context.cpp
index 880d29a..beca2bd 100644
--- a/algebra/src/context.cpp
+++ b/algebra/src/context.cpp
@@ -105,7 +105,6 @@ ContextBase::ContextBase(
         // memory.
         p_tensor_sizes = tsizes;
         tsizes[0] = 1;
-        tsizes[1] = 1 + m_width;
         for (deg_t i = 1; i <= m_depth; ++i) {
             tsizes[i] = 1 + tsizes[i - 1] * m_width;
         }
@@ -118,9 +117,8 @@ ContextBase::ContextBase(
         // memory.
         p_lie_sizes = lsizes;
         lsizes[0] = 0;
-        lsizes[1] = m_width;
-        for (int i = 2; i <= m_depth; ++i) {
-            lsizes[i] = helper(i) * lsizes[i - 1];
+        for (int i = 1; i <= m_depth; ++i) {
+            lsizes[i] = lsizes[i - 1] + helper(i);
         }
     }
 }
-- 
2.43.0


From f7fcb628450abbc879f597b36a98f34f12e31bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 13/41] fix: left parent of a letter and first letter of a
 bracket in the Lie basis

---
 algebra/src/libalgebra_lite_internal/lie_basis_info.h | 2 ++
 vendored/libalgebra_lite/hall_set.h                   | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/algebra/src/libalgebra_lite_internal/lie_basis_info.h b/algebra/src/libalgebra_lite_internal/lie_basis_info.h
index f135218..6eec709 100644
--- a/algebra/src/libalgebra_lite_internal/lie_basis_info.h
+++ b/algebra/src/libalgebra_lite_internal/lie_basis_info.h
@@ -73,6 +73,8 @@ struct BasisInfo<LieBasis, lal::hall_basis> {
     static our_key_type
     convert_from_impl(storage_t basis, const impl_key_type& arg)
     {
+        // The root of the Hall set (the left parent of a letter) is key 0
+        if (arg.degree() == 0) { return 0; }
         // The default is to take the index of arg as the return
         return 1 + static_cast<our_key_type>(basis->key_to_index(arg));
     }
diff --git a/vendored/libalgebra_lite/hall_set.h b/vendored/libalgebra_lite/hall_set.h
index 38899d1..23a83e0 100644
--- a/vendored/libalgebra_lite/hall_set.h
+++ b/vendored/libalgebra_lite/hall_set.h
@@ -178,7 +178,11 @@ public:
     key_type key_of_letter(let_t letter) const noexcept
     { return p_hallset->key_of_letter(letter); }
     let_t first_letter(const key_type& key) const noexcept
-    { return p_hallset->get_letter((*p_hallset)[key].first.index()); }
+    {
+        auto left = key;
+        while (left.degree() > 1) { left = lparent(left); }
+        return to_letter(left);
+    }
     let_t to_letter(const key_type& key) const noexcept
     { return p_hallset->get_letter(key.index()); }
     dimn_t size(int deg) const noexcept
-- 
2.43.0


From 33b1a2405fe57e67e12ef5b2a9479f43a1117e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 14/41] fix: Lie/tensor maps read elements of another storage
 as the wrong type

---
 algebra/src/lite_context.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 40bf72a..eaa7e7c 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -495,7 +495,7 @@ LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
     // If arg is an object from this context, then we can just use the maps
     // directly
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
@@ -515,7 +515,7 @@ LiteContext<Coefficients>::tensor_to_lie_impl(const FreeTensor& arg) const
 {
 
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.tensor_to_lie(algebra_cast<free_tensor_t<VType>>(*arg));
     }
 
-- 
2.43.0


From bd37fda964bd2e4fe4d4006d61849241f0986f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 15/41] fix: keep the rows and keys of a KeyScalarStream
 aligned when an unkeyed row follows a keyed one

---
 scalars/src/key_scalar_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..a9ca672 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -85,7 +85,7 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
         if (m_key_stream.empty()) {
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
@@ -98,7 +98,7 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
         if (m_key_stream.empty()) {
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
-- 
2.43.0


From 577b0654b7a1778fde58ea94b8062488368328bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 16/41] fix: lie_to_tensor, tensor_to_lie and sig_derivative
 treat an empty element as zero

---
 algebra/src/lite_context.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index eaa7e7c..67c6c8f 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -492,6 +492,9 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template free_tensor_t<VType>
 LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
 {
+    // An empty object is zero
+    if (!arg) { return free_tensor_t<VType>(p_tbasis, p_ftmul); }
+
     // If arg is an object from this context, then we can just use the maps
     // directly
     const auto& arg_context = arg->context();
@@ -513,6 +516,8 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template lie_t<VType>
 LiteContext<Coefficients>::tensor_to_lie_impl(const FreeTensor& arg) const
 {
+    // An empty object is zero
+    if (!arg) { return lie_t<VType>(p_lbasis, p_liemul); }
 
     const auto& arg_context = arg->context();
     if (arg_context == this && arg.storage_type() == VType) {
-- 
2.43.0


From 813d861531778caa70e1475d0f20e6139848029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 17/41] fix: an interval contains another only if it holds the
 end the other includes

---
 intervals/src/interval.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/intervals/src/interval.cpp b/intervals/src/interval.cpp
index fcff624..31bd9ae 100644
--- a/intervals/src/interval.cpp
+++ b/intervals/src/interval.cpp
@@ -75,7 +75,19 @@ bool Interval::is_associated(const Interval& arg) const noexcept
 }
 bool Interval::contains(const Interval& arg) const noexcept
 {
-    return inf() <= arg.inf() && arg.sup() <= sup();
+    const auto linf = inf();
+    const auto lsup = sup();
+    const auto rinf = arg.inf();
+    const auto rsup = arg.sup();
+
+    if (m_interval_type != arg.m_interval_type) {
+        // The end that arg includes must not be the end that *this excludes
+        if (m_interval_type == IntervalType::Clopen) {
+            return linf <= rinf && rsup < lsup;
+        }
+        return linf < rinf && rsup <= lsup;
+    }
+    return linf <= rinf && rsup <= lsup;
 }
 bool Interval::intersects_with(const Interval& arg) const noexcept
 {
-- 
2.43.0


From 93f40886d14e09d378b7d7f3af0da955c56bf354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 18/41] fix: intersection and union of open-closed intervals
 are open-closed

---
 intervals/src/intersection_and_union.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/intervals/src/intersection_and_union.cpp b/intervals/src/intersection_and_union.cpp
index 6477807..b295cf5 100644
--- a/intervals/src/intersection_and_union.cpp
+++ b/intervals/src/intersection_and_union.cpp
@@ -12,6 +12,16 @@
 using namespace rpy;
 using namespace rpy::intervals;
 
+namespace {
+
+// The result has the type of the arguments, when this is the same
+IntervalType common_type(const Interval& lhs, const Interval& rhs) noexcept
+{
+    return lhs.type() == rhs.type() ? lhs.type() : IntervalType::Clopen;
+}
+
+}// namespace
+
 
 RealInterval intervals::intersection(const Interval& lhs,
                                      const Interval& rhs) noexcept
@@ -26,7 +36,7 @@ RealInterval intervals::intersection(const Interval& lhs,
     auto inf = std::max(linf, rinf);
     auto sup = std::min(lsup, rsup);
 
-    return RealInterval(inf, sup);
+    return RealInterval(inf, sup, common_type(lhs, rhs));
 }
 
 
@@ -34,5 +44,6 @@ RealInterval
 intervals::interval_union(const Interval& lhs, const Interval& rhs) noexcept
 {
     return RealInterval(std::min(lhs.inf(), rhs.inf()),
-                        std::max(lhs.sup(), rhs.sup()));
+                        std::max(lhs.sup(), rhs.sup()),
+                        common_type(lhs, rhs));
 }
\ No newline at end of file
-- 
2.43.0


From f0b57b7601b6dcff69f076616380c3ce07b4b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 19/41] fix: keep each intermediate point of a partition once

---
 intervals/src/partition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..f248f14 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -53,6 +53,10 @@ Partition::Partition(RealInterval base, Slice<param_t> intermediate_points)
         }
     }
     std::sort(m_intermediate_points.begin(), m_intermediate_points.end());
+    m_intermediate_points.erase(
+            std::unique(m_intermediate_points.begin(),
+                        m_intermediate_points.end()),
+            m_intermediate_points.end());
 }
 Partition Partition::refine_midpoints() const
 {
-- 
2.43.0


From 8c1df7418b8ee63f05b42d82f519170033a71b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 20/41] fix: inserting an end or an existing point of a
 partition creates no empty piece

---
 intervals/src/partition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index f248f14..20c410a 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -128,11 +128,18 @@ void Partition::insert_intermediate(param_t new_intermediate)
                                     "within the interval");
     }
 
+    // The end points already bound a piece of the partition
+    if (new_intermediate == inf() || new_intermediate == sup()) { return; }
+
     // Use find-insert rather than push_back-sort since this should
     // require fewer comparisons
     auto insert_point
             = std::lower_bound(m_intermediate_points.begin(),
                                m_intermediate_points.end(), new_intermediate);
+    if (insert_point != m_intermediate_points.end()
+        && *insert_point == new_intermediate) {
+        return;
+    }
     m_intermediate_points.insert(insert_point, new_intermediate);
 }
 
-- 
2.43.0


From 4fcfba9c01782628b3b083f6301af7c9a6980ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 21/41] fix: merging disjoint partitions keeps their
 intermediate points

---
 intervals/src/partition.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 20c410a..bb90e08 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -156,21 +156,28 @@ Partition Partition::merge(const Partition& other) const
             RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
 
     if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
+        result.m_intermediate_points = m_intermediate_points;
         if RPY_LIKELY (lsup != linf) {
             result.m_intermediate_points.push_back(lsup);
         }
         if RPY_LIKELY (rinf != rsup) {
             result.m_intermediate_points.push_back(rinf);
         }
+        result.m_intermediate_points.insert(
+                result.m_intermediate_points.end(),
+                other.m_intermediate_points.begin(),
+                other.m_intermediate_points.end());
     } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
+        result.m_intermediate_points = other.m_intermediate_points;
         if RPY_LIKELY (rinf != rsup) {
             result.m_intermediate_points.push_back(rsup);
         }
         if RPY_LIKELY (lsup != linf) {
             result.m_intermediate_points.push_back(linf);
         }
+        result.m_intermediate_points.insert(
+                result.m_intermediate_points.end(),
+                m_intermediate_points.begin(), m_intermediate_points.end());
     } else {
 
         // At worst, the result has size size() + other.size();
-- 
2.43.0


From 07f0f80b5970ac990a722bebcbc617f593c50a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 22/41] fix: compare partitions with == and let assignment
 assign

---
 intervals/include/roughpy/intervals/partition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intervals/include/roughpy/intervals/partition.h b/intervals/include/roughpy/intervals/partition.h
index d0678ad..fb6b07a 100644
--- a/intervals/include/roughpy/intervals/partition.h
+++ b/intervals/include/roughpy/intervals/partition.h
@@ -84,7 +84,7 @@ public:
 
 
     RPY_NO_DISCARD
-    bool operator=(const Partition& other) const noexcept {
+    bool operator==(const Partition& other) const noexcept {
         if (static_cast<const RealInterval&>(*this) != other) {
             return false;
         }
-- 
2.43.0


From 9a879f24ddcb5dc477aad587e34d296f8edca943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 23/41] fix: segments stay within the interval segmented

---
 intervals/src/dyadic_searcher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index e37f8b2..dadef0f 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -45,6 +45,9 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
     bool is_aligned = di.aligned();
     --di;// moving to the left
 
+    // Nothing to the left of the unit interval belongs to the search
+    if (di.multiplier() < 0) { return; }
+
     if (is_aligned) {
         // It's possible that the interval contains two dyadics of starting
         // length if and only if the left hand is not aligned and the right
@@ -52,6 +55,7 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
         if (predicate(di)) {
             current.push_front(di);
             --di;
+            if (di.multiplier() < 0) { return; }
         }
     }
     /*
@@ -90,6 +94,9 @@ void DyadicSearcher::expand_right(ScaledPredicate& predicate,
      */
     ++di;// moving to the right.
 
+    // Nothing to the right of the unit interval belongs to the search
+    if (di.multiplier() >= (1 << di.power())) { return; }
+
     while (di.power() < m_max_depth) {
         DyadicInterval right(di);
         right.shrink_interval_right();
-- 
2.43.0


From 53ead78e562ba9366b6570f38ef7ff926ad9b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 24/41] fix: segments have the type of the interval segmented

---
 intervals/src/dyadic_searcher.cpp  | 2 +-
 intervals/src/scaled_predicate.cpp | 2 +-
 intervals/src/scaled_predicate.h   | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index dadef0f..6bfcedf 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -146,7 +146,7 @@ DyadicSearcher::rescale_to_unit_interval(const Interval& original)
      * y -> a + y*(b-a)
      */
 
-    return {m_predicate, a, (b - a)};
+    return {m_predicate, a, (b - a), original.type()};
 }
 void DyadicSearcher::get_next_dyadic(DyadicInterval& current) const
 {
diff --git a/intervals/src/scaled_predicate.cpp b/intervals/src/scaled_predicate.cpp
index 0f134d3..c88b283 100644
--- a/intervals/src/scaled_predicate.cpp
+++ b/intervals/src/scaled_predicate.cpp
@@ -37,7 +37,7 @@ using namespace rpy::intervals;
 RealInterval ScaledPredicate::unscale(const Interval& interval) const
 {
     return {interval.inf() * m_scale + m_shift,
-            interval.sup() * m_scale + m_shift, interval.type()};
+            interval.sup() * m_scale + m_shift, m_type};
 }
 bool ScaledPredicate::operator()(const Interval& interval) const
 {
diff --git a/intervals/src/scaled_predicate.h b/intervals/src/scaled_predicate.h
index 9b7f308..569f4ae 100644
--- a/intervals/src/scaled_predicate.h
+++ b/intervals/src/scaled_predicate.h
@@ -44,10 +44,12 @@ class ScaledPredicate
     predicate_t& m_func;
     param_t m_shift;
     param_t m_scale;
+    IntervalType m_type;
 
 public:
-    ScaledPredicate(predicate_t& predicate, param_t shift, param_t scale)
-        : m_func(predicate), m_shift(shift), m_scale(scale)
+    ScaledPredicate(predicate_t& predicate, param_t shift, param_t scale,
+                    IntervalType type)
+        : m_func(predicate), m_shift(shift), m_scale(scale), m_type(type)
     {}
 
     RealInterval unscale(const Interval& interval) const;
-- 
2.43.0


From 91e5908dadfe4eba522ce6f22d5fe8a23df2b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:01 +0000
Subject: [PATCH 25/41] fix: parts of a piecewise abelian stream are scaled by
 the fraction queried

---
 .../streams/piecewise_abelian_stream.h        | 23 ++++++++-----------
 streams/src/piecewise_abelian_stream.cpp      | 16 ++++++-------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/streams/include/roughpy/streams/piecewise_abelian_stream.h b/streams/include/roughpy/streams/piecewise_abelian_stream.h
index 0ab76e4..8561766 100644
--- a/streams/include/roughpy/streams/piecewise_abelian_stream.h
+++ b/streams/include/roughpy/streams/piecewise_abelian_stream.h
@@ -51,21 +51,18 @@ public:
 private:
     std::vector<LiePiece> m_data;
 
+    /// The fraction of the interval that lies between lower and upper
     RPY_NO_DISCARD
-    static inline scalars::Scalar
-    to_multiplier_upper(const intervals::RealInterval& interval, param_t param)
+    static inline scalars::Scalar to_multiplier(
+            const intervals::RealInterval& interval,
+            param_t lower,
+            param_t upper
+    )
     {
-        RPY_DBG_ASSERT(interval.inf() <= param && param <= interval.sup());
-        return scalars::Scalar((interval.sup() - param)
-                               / (interval.sup() - interval.inf()));
-    }
-    RPY_NO_DISCARD
-    static inline scalars::Scalar
-    to_multiplier_lower(const intervals::RealInterval& interval, param_t param)
-    {
-        RPY_DBG_ASSERT(interval.inf() <= param && param <= interval.sup());
-        return scalars::Scalar((param - interval.inf())
-                               / (interval.sup() - interval.inf()));
+        RPY_DBG_ASSERT(interval.inf() <= lower && upper <= interval.sup());
+        return scalars::Scalar(
+                (upper - lower) / (interval.sup() - interval.inf())
+        );
     }
 
 public:
diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..d3f36ca 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,14 +173,14 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
-            // [p---[---p)-----)
-            lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
-            ));
-        } else if (pa >= a && pb > b) {
-            // [---[p----)----p)
-            lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
-            ));
+        } else {
+            // Only part of the piece lies in the request interval
+            // [p---[---p)-----), [---[p----)----p) or [p---[-----)---p)
+            lies.push_back(piece.second.smul(to_multiplier(
+                    piece.first,
+                    std::max(a, pa),
+                    std::min(b, pb)
+            )));
         }
     }
 
-- 
2.43.0


From 83b4ba7e83ce1eaa1c0a16c5b63013483298a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:01 +0000
Subject: [PATCH 26/41] fix: keep all increments that share a parameter

---
 .../roughpy/streams/lie_increment_stream.h    |  2 +
 streams/src/lie_increment_stream.cpp          | 41 +++++++++++--------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/streams/include/roughpy/streams/lie_increment_stream.h b/streams/include/roughpy/streams/lie_increment_stream.h
index 826353b..ff02a47 100644
--- a/streams/include/roughpy/streams/lie_increment_stream.h
+++ b/streams/include/roughpy/streams/lie_increment_stream.h
@@ -51,6 +51,8 @@ public:
 private:
     boost::container::flat_map<param_t, Lie> m_data;
 
+    void insert_increment(param_t index, Lie&& increment);
+
 public:
     using DyadicCachingLayer::DyadicCachingLayer;
 
diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index 4cabe77..c33bfb3 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -96,16 +96,14 @@ LieIncrementStream::LieIncrementStream(
                         scalars::KeyScalarArray(*buffer.type(), dptr, width),
                         md.cached_vector_type};
 
-                auto [it, inserted]
-                        = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
-                if (inserted && param_needs_adding) {
+                auto increment = ctx.construct_lie(cdata);
+                if (param_needs_adding) {
                     /*
-                     * We've inserted a new element, so we should now add the param
-                     * value if it is needed.
+                     * Add the param value if it is needed.
                      */
-                    it->second[param_slot] = Scalar(index - previous_param);
+                    increment[param_slot] = Scalar(index - previous_param);
                 }
+                insert_increment(index, std::move(increment));
                 previous_param = index;
                 dptr += stride;
             }
@@ -142,17 +140,14 @@ LieIncrementStream::LieIncrementStream(
                 md.cached_vector_type
         };
 
-        auto [it, inserted]
-                = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
-
-        if (inserted && param_needs_adding) {
+        auto increment = ctx.construct_lie(cdata);
+        if (param_needs_adding) {
             /*
-             * We've inserted a new element, so we should now add the param
-             * value if it is needed.
+             * Add the param value if it is needed.
              */
-            it->second[param_slot] = index - previous_param;
+            increment[param_slot] = Scalar(index - previous_param);
         }
+        insert_increment(index, std::move(increment));
         previous_param = index;
 
     }
@@ -166,11 +161,25 @@ LieIncrementStream::LieIncrementStream(std::vector<pair<param_t, Lie>>&& data,
 {
     m_data.reserve(data.size());
     for (auto&& [param, lie] : data | views::move) {
-        m_data.emplace(param, std::move(lie));
+        insert_increment(param, std::move(lie));
     }
 
 }
 
+void LieIncrementStream::insert_increment(param_t index, Lie&& increment)
+{
+    auto [it, inserted] = m_data.try_emplace(index, std::move(increment));
+    if (!inserted) {
+        // Several increments at the same parameter happen one after the other
+        const auto& md = metadata();
+        it->second = md.default_context->cbh(
+                it->second,
+                increment,
+                md.cached_vector_type
+        );
+    }
+}
+
 algebra::Lie LieIncrementStream::log_signature_impl(
         const intervals::Interval& interval, const algebra::Context& ctx
 ) const
-- 
2.43.0


From 48dc619d759cc69e5ce7749f2addcb55cc4ee364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:01 +0000
Subject: [PATCH 27/41] fix: cells of a cached stream go whole to the part
 holding their included end

---
 streams/src/dyadic_caching_layer.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..e9da914 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -88,12 +88,25 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
+    const auto stream_resolution = metadata().default_resolution;
+
+    if (interval.power() > stream_resolution) {
+        // The stream is not resolved within its cells, so all of a cell
+        // belongs to the part that holds its included end, whether or not
+        // there is any data in that part.
+        intervals::DyadicInterval tmp(interval);
+        tmp.expand_interval(interval.power() - stream_resolution);
+        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
+        if (rational_equals(tmp, interval)) {
+            return log_signature(tmp, stream_resolution, ctx);
+        }
+        return algebra::Lie();
+    }
+
     if (empty(interval)) {
         return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
-    const auto stream_resolution = metadata().default_resolution;
-
     if (interval.power() == stream_resolution) {
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
@@ -104,16 +117,6 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
         return cached.borrow_mut();
     }
 
-    if (interval.power() > stream_resolution) {
-        intervals::DyadicInterval tmp(interval);
-        tmp.expand_interval(interval.power() - stream_resolution);
-        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
-        if (rational_equals(tmp, interval)) {
-            return log_signature(tmp, stream_resolution, ctx);
-        }
-        return algebra::Lie();
-    }
-
     intervals::DyadicInterval lhs_itvl(interval);
     intervals::DyadicInterval rhs_itvl(interval);
     lhs_itvl.shrink_interval_left();
-- 
2.43.0


From d0efa395de7f7348a8073343cd5214928f9f4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:01 +0000
Subject: [PATCH 28/41] fix: do not answer queries from values cached in
 another context

---
 streams/src/dyadic_caching_layer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index e9da914..ba88bde 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -108,6 +108,14 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     }
 
     if (interval.power() == stream_resolution) {
+        // The cached values belong to the default context, so they cannot be
+        // used to answer queries in a context of a different depth or type.
+        const auto& default_ctx = *metadata().default_context;
+        if (ctx.depth() != default_ctx.depth()
+            || ctx.ctype() != default_ctx.ctype()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
         auto& cached = m_cache[interval];
-- 
2.43.0


From 3a3b78c10192a86ef13e447b8f2689c2dd2f107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:05 +0000
Subject: [PATCH 29/41] fix: Brownian increments have the length of the
 interval as variance

---
 streams/src/brownian_stream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..94538aa 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -35,6 +35,8 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
@@ -44,9 +46,10 @@ algebra::Lie BrownianStream::gaussian_increment(
 ) const
 {
     const auto& md = metadata();
+    // The variance of an increment is the length of the interval
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(length)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,7 +72,9 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    // The variance of the midpoint of a Brownian bridge is a quarter of the
+    // length of the interval, which is half the length of its left half.
+    auto length = ldexp(0.5, -left_di.power());
 
     const auto perturbation = gaussian_increment(*md.default_context, length);
     return {mean.add(perturbation), mean.sub(perturbation)};
-- 
2.43.0


From c98aca9c842a7d289a4d27053ebae2867efecd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:05 +0000
Subject: [PATCH 30/41] fix: dynamically constructed streams are multiplicative
 in any order of queries

---
 .../streams/dynamically_constructed_stream.h  | 17 +++-
 .../src/dynamically_constructed_stream.cpp    | 89 +++++++++----------
 2 files changed, 56 insertions(+), 50 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..8fb7d42 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -106,6 +106,9 @@ private:
 
     void refine_accuracy(data_increment increment, resolution_t desired) const;
 
+    RPY_NO_DISCARD
+    data_increment find_root(DyadicInterval di) const;
+
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
                                               DyadicInterval di) const;
@@ -148,7 +151,19 @@ public:
     DynamicallyConstructedStream(DynamicallyConstructedStream&& other) noexcept
         : StreamInterface(static_cast<StreamInterface&&>(other)), m_lock(),
           m_data_tree(std::move(other.m_data_tree))
-    {}
+    {
+        // The end iterators held by the roots are not moved with the tree
+        const auto old_end = other.m_data_tree.end();
+        for (auto& item : m_data_tree) {
+            auto& increment = item.second;
+            if (increment.parent() == old_end) {
+                increment.parent(m_data_tree.end());
+            }
+            if (increment.sibling() == old_end) {
+                increment.sibling(m_data_tree.end());
+            }
+        }
+    }
 
     algebra::Lie log_signature(const intervals::DyadicInterval& interval,
                                resolution_t resolution,
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..352bdbb 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -47,51 +47,42 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
+    if (increment->second.accuracy() >= desired) { return; }
 
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
+    DyadicInterval left_interval(increment->first);
+    left_interval.shrink_interval_left();
 
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
+    // The children of a node that has them already are inserted in the tree,
+    // directly below the node.
+    auto left = DataIncrement::is_leaf(increment)
+            ? insert_children_and_refine(increment, left_interval)
+            : std::next(increment);
+    RPY_DBG_ASSERT(dyadic_equals(left->first, left_interval));
 
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
+    refine_accuracy(left, desired);
+    refine_accuracy(left->second.sibling(), desired);
+    update_parent_accuracy(left);
+}
 
-            update_parents(leaf_above);
-        }
+DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::find_root(DyadicInterval di) const
+{
+    const auto begin = m_data_tree.begin();
+    const auto end = m_data_tree.end();
+
+    // No dyadic interval contains points on both sides of zero, so the
+    // increments on the two sides of zero have different roots.
+    if (di.multiplier() < 0) {
+        return (begin != end && begin->first.multiplier() < 0) ? begin : end;
+    }
+
+    // The root is first amongst the increments on its side of zero
+    auto root = m_data_tree.lower_bound(
+        DyadicInterval(0, di.power(), di.type()));
+    while (root != begin && std::prev(root)->first.multiplier() >= 0) {
+        --root;
     }
+    return root;
 }
 
 DynamicallyConstructedStream::data_increment
@@ -138,11 +129,11 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             make_neighbour_root_increment(neighbour),
             neighbour.power(),
             old_root);
+        // The value over the new root is determined by those over its halves
         root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
+                           Lie(),
+                           new_root.power(),
                            old_root);
-        update_parent_accuracy(old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -151,6 +142,7 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
         old_root->second.sibling(it_neighbour);
         it_neighbour->second.parent(root);
         it_neighbour->second.sibling(old_root);
+        update_parent_accuracy(old_root);
     }
     return root;
 }
@@ -220,11 +212,10 @@ void streams::DynamicallyConstructedStream::update_parents(
     //        top = update_parent_accuracy(below);
     //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto end = m_data_tree.end();
 
-    while (current != root) {
-        auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
+    for (auto parent = current->second.parent(); parent != end;
+         parent = current->second.parent()) {
         auto sibling = current->second.sibling();
 
         auto accuracy_available = std::min(current->second.accuracy(),
@@ -304,9 +295,9 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    auto root = find_root(interval);
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree currently holds no data on this side of zero.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0


From 86b6f27d37004f32c8e6c6c37a68446da223c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 31/41] fix: reference counts of device objects start at zero,
 and handles copy as values

---
 .../roughpy/platform/devices/device_object_base.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/platform/include/roughpy/platform/devices/device_object_base.h b/platform/include/roughpy/platform/devices/device_object_base.h
index 92da423..298579c 100644
--- a/platform/include/roughpy/platform/devices/device_object_base.h
+++ b/platform/include/roughpy/platform/devices/device_object_base.h
@@ -30,6 +30,7 @@
 
 #include <atomic>
 #include <memory>
+#include <utility>
 
 #include "roughpy/core/check.h"
 #include <roughpy/core/debug_assertion.h>
@@ -78,7 +79,7 @@ class RefCountBase : public Interface
     );
 
     using atomic_t = std::atomic_size_t;
-    atomic_t m_ref_count;
+    atomic_t m_ref_count{0};
 
 public:
     using Interface::Interface;
@@ -203,11 +204,8 @@ ObjectBase<Interface, Derived>&
 ObjectBase<Interface, Derived>::operator=(const ObjectBase& other)
 {
     if (&other != this) {
-        this->~ObjectBase();
-        if (other.p_impl) {
-            p_impl = other.p_impl;
-            p_impl->inc_ref();
-        }
+        ObjectBase tmp(other);
+        std::swap(p_impl, tmp.p_impl);
     }
     return *this;
 }
@@ -216,9 +214,8 @@ ObjectBase<Interface, Derived>&
 ObjectBase<Interface, Derived>::operator=(ObjectBase&& other) noexcept
 {
     if (&other != this) {
-        this->~ObjectBase();
-        p_impl = other.p_impl;
-        other.p_impl = nullptr;
+        ObjectBase tmp(std::move(other));
+        std::swap(p_impl, tmp.p_impl);
     }
     return *this;
 }
-- 
2.43.0


From 23c6dda48f0ac080499ef889f19a4a34c7c2c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 32/41] fix: packed type information keeps all bits of the type
 code

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From 2b8eaf64c9c05bb81bf33e6fda673ed9a6bc3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 33/41] fix: the common type of two scalars does not depend on
 their order and can hold both

---
 scalars/src/scalar/type_promotion.cpp | 28 +++++++++++++--------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index ef8c145..bb2dd71 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -29,18 +29,16 @@ devices::TypeInfo compute_int_promotion(
                 1
         };
 
-        if (src_info.code != info.code) {
-            // One is signed, the other is unsigned
-            if (traits::is_signed(src_info)) {
-                // If src is signed the we must make sure that the dst is signed
-                info.code = src_info.code;
-            } else {
-                // If src is unsigned then dst might not be large enough
-                if (info.bytes <= src_info.bytes
-                    && info.bytes < sizeof(int64_t)) {
-                    info.bytes *= 2;
-                    info.alignment = info.bytes;
-                }
+        if (src_info.code != dst_info.code) {
+            // One is signed, the other is unsigned. The result must be signed,
+            // and large enough to hold the values of the unsigned type.
+            const auto& unsigned_info
+                    = traits::is_signed(src_info) ? dst_info : src_info;
+            info.code = devices::TypeCode::Int;
+            if (info.bytes <= unsigned_info.bytes
+                && info.bytes < sizeof(int64_t)) {
+                info.bytes *= 2;
+                info.alignment = info.bytes;
             }
         }
 
@@ -163,7 +161,6 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         PackedScalarTypePointer<ScalarContentType> src_type
 )
 {
-    RPY_DBG_ASSERT(!(dst_type == src_type));
 
     switch (dst_type.get_enumeration()) {
         case ScalarContentType::TrivialBytes:
@@ -173,8 +170,9 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         case ScalarContentType::OpaquePointer:
         case ScalarContentType::ConstOpaquePointer:
         case ScalarContentType::Interface:
-        case ScalarContentType::OwnedInterface: return dst_type;
+        case ScalarContentType::OwnedInterface:
+            return type_info_from(dst_type);
     }
 
-    RPY_UNREACHABLE_RETURN(dst_type);
+    RPY_UNREACHABLE_RETURN(type_info_from(dst_type));
 }
-- 
2.43.0


From 460de5cb02e49ded0ce206115baa3cb96a8e772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 34/41] fix: scalars of different types are equal exactly when
 their numbers are

---
 scalars/src/scalar/comparison.cpp | 240 +++++++++---------------------
 1 file changed, 72 insertions(+), 168 deletions(-)

diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 802bc40..2750f78 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -34,7 +34,7 @@
 #include "do_macro.h"
 #include <roughpy/scalars/scalar_types.h>
 
-#include <limits>
+#include <cmath>
 
 using namespace rpy;
 using namespace rpy::scalars;
@@ -59,213 +59,117 @@ inline bool is_zero(const rational_poly_scalar& arg) noexcept
     return arg.empty();
 }
 
-template <typename L, typename R>
-inline bool compare_outer(const L& lhs, const R& rhs) noexcept;
-
-template <typename S, typename T>
-constexpr bool compare_impl(const S& lhs, const T& rhs) noexcept
-{
-    return lhs == rhs;
-}
-
-RPY_MAYBE_UNUSED
-inline bool
-compare_same(const void* lhs, const void* rhs, TypeInfo info) noexcept
-{
-#define X(T) return compare_impl(*((const T*) lhs), *((const T*) rhs))
-    DO_FOR_EACH_X(info)
-#undef X
-    return false;
-}
-
+/*
+ * Two scalars are equal if they represent the same number, regardless of how
+ * each of them is represented. To compare values we replace each by the largest
+ * type of the same kind, which is always faithful, and then compare the kinds.
+ */
 template <typename T>
-constexpr bool compare_wrap_equal(const T& lhs, const T& rhs) noexcept
+constexpr enable_if_t<is_integral_v<T> && is_signed_v<T>, int64_t>
+widen(const T& arg) noexcept
 {
-    return lhs == rhs;
+    return arg;
 }
-
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_integral_v<R>
-                && is_signed_v<L> && is_unsigned_v<R>,
-        bool>
-compare_wrap_equal(const L& lhs, const R& rhs) noexcept
+template <typename T>
+constexpr enable_if_t<is_integral_v<T> && is_unsigned_v<T>, uint64_t>
+widen(const T& arg) noexcept
 {
-    static_assert(sizeof(L) == sizeof(R), "comparison of integers of different sizes");
-    return (lhs >= 0) && static_cast<R>(lhs) == rhs;
+    return arg;
 }
-
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_integral_v<R>
-                && is_unsigned_v<L> && is_signed_v<R>,
-        bool>
-compare_wrap_equal(const L& lhs, const R& rhs) noexcept
+template <typename T>
+constexpr enable_if_t<is_floating_point_v<T>, double> widen(const T& arg
+) noexcept
 {
-    static_assert(sizeof(L) == sizeof(R), "comparison of integers of different sizes");
-    return (rhs >= 0) && lhs == static_cast<L>(rhs);
+    return arg;
 }
-
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_signed_v<L>
-                && is_floating_point_v<R>,
-        bool>
-compare_wrap_equal(const L& lhs, const R& rhs) noexcept
+inline double widen(const half& arg) noexcept { return float(arg); }
+inline double widen(const bfloat16& arg) noexcept { return float(arg); }
+inline const rational_scalar_type& widen(const rational_scalar_type& arg
+) noexcept
 {
-    /*
-     * Left is signed integral, right is fp, make sure lhs is smaller than the
-     * mantissa bits of rhs
-     */
-    constexpr L unique_max = (L(1) << std::numeric_limits<R>::digits) - 1;
-    return (lhs <= unique_max && lhs >= -unique_max)
-            && static_cast<R>(lhs) == rhs;
+    return arg;
 }
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_unsigned_v<L>
-                && is_floating_point_v<R>,
-        bool>
-compare_wrap_equal(const L& lhs, const R& rhs) noexcept
+inline const rational_poly_scalar& widen(const rational_poly_scalar& arg
+) noexcept
 {
-    /*
-     * Left is unsigned integral, right is fp, make sure lhs is smaller than the
-     * mantissa bits of rhs
-     */
-    constexpr L unique_max = (L(1) << std::numeric_limits<R>::digits) - 1;
-    return (lhs <= unique_max) && static_cast<R>(lhs) == rhs;
+    return arg;
 }
 
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_floating_point_v<L>
-                && is_integral_v<R>,
-        bool>
-compare_wrap_equal(const L& lhs, const R& rhs) noexcept
-{
-    // Just reverse and compare.
-    return compare_wrap_equal(rhs, lhs);
-}
+/// The kinds of value, in order.
+template <typename T>
+inline constexpr int kind_of = 0;
+template <>
+inline constexpr int kind_of<uint64_t> = 1;
+template <>
+inline constexpr int kind_of<double> = 2;
+template <>
+inline constexpr int kind_of<rational_scalar_type> = 3;
+template <>
+inline constexpr int kind_of<rational_poly_scalar> = 4;
 
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_signed_v<L>
-                && is_integral_v<R> && is_unsigned_v<R>,
-        bool>
-compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+template <typename T>
+inline bool compare_wide(const T& lhs, const T& rhs) noexcept
 {
-    return (lhs >= 0) && static_cast<R>(lhs) == rhs;
+    return lhs == rhs;
 }
 
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L> && is_unsigned_v<L>
-                && is_integral_v<R> && is_signed_v<R>,
-        bool>
-compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+inline bool compare_wide(const int64_t& lhs, const uint64_t& rhs) noexcept
 {
-    return (rhs >= 0) && static_cast<R>(lhs) == rhs;
+    return lhs >= 0 && static_cast<uint64_t>(lhs) == rhs;
 }
 
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_integral_v<L>
-                && is_floating_point_v<R>,
-        bool>
-compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
-{
-    return static_cast<R>(lhs) == rhs;
-}
-template <typename L, typename R>
-constexpr enable_if_t<
-        !is_same_v<L, R> && is_floating_point_v<L>
-                && is_integral_v<R>,
-        bool>
-compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+template <typename I>
+inline enable_if_t<is_integral_v<I>, bool>
+compare_wide(const I& lhs, const double& rhs) noexcept
 {
-    // Just reverse and compare.
-    return compare_wrap_unequal(rhs, lhs);
+    // The conversion of rhs to an integer is only defined between the limits,
+    // and can only equal rhs if there is no fractional part.
+    constexpr double lower = is_signed_v<I> ? -9223372036854775808. : 0.;
+    constexpr double upper
+            = is_signed_v<I> ? 9223372036854775808. : 18446744073709551616.;
+    if (!(rhs >= lower && rhs < upper)) { return false; }
+    const auto integral_part = static_cast<I>(rhs);
+    return integral_part == lhs && static_cast<double>(integral_part) == rhs;
 }
 
-template <typename L>
-constexpr bool
-compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
+template <typename T>
+inline enable_if_t<(kind_of<T> < 3), bool>
+compare_wide(const T& lhs, const rational_scalar_type& rhs) noexcept
 {
+    if constexpr (is_same_v<T, double>) {
+        // Infinities and NaNs are not rational
+        if (!std::isfinite(lhs)) { return false; }
+    }
     return rational_scalar_type(lhs) == rhs;
 }
-template <typename R>
-constexpr enable_if_t<
-        sizeof(rational_scalar_type) < sizeof(R)
-                && !is_same_v<R, rational_poly_scalar>,
-        bool>
-compare_wrap_unequal(const rational_scalar_type& lhs, const R& rhs) noexcept
-{
-    return lhs == rational_scalar_type(rhs);
-}
-template <typename L>
-inline  bool
-compare_wrap_unequal(const L& lhs, const rational_poly_scalar& rhs) noexcept
+
+template <typename T>
+inline enable_if_t<(kind_of<T> < 4), bool>
+compare_wide(const T& lhs, const rational_poly_scalar& rhs) noexcept
 {
     if (rhs.empty()) { return is_zero(lhs); }
 
     if (rhs.size() == 1) {
         auto first = rhs.begin();
         if (first->key() == monomial()) {
-            return compare_outer(lhs, first->value());
+            return compare_wide(lhs, first->value());
         }
     }
 
     return false;
 }
-template <typename R>
-constexpr bool
-compare_wrap_unequal(const rational_poly_scalar& lhs, const R& rhs) noexcept
-{
-    return compare_wrap_unequal(rhs, lhs);
-}
-
-template <typename L, typename R>
-constexpr enable_if_t<sizeof(L) == sizeof(R), bool>
-compare_wrap(const L& lhs, const R& rhs) noexcept
-{
-    return compare_wrap_equal(lhs, rhs);
-}
 
-template <typename L, typename R>
-constexpr enable_if_t<sizeof(L) < sizeof(R), bool>
-compare_wrap(const L& lhs, const R& rhs) noexcept
-{
-    return compare_wrap_unequal(lhs, rhs);
-}
-
-template <typename L, typename R>
-constexpr enable_if_t<sizeof(R) < sizeof(L), bool>
-compare_wrap(const L& lhs, const R& rhs) noexcept
-{
-    return compare_wrap_unequal(rhs, lhs);
-}
-
-/*
- * Since half and bfloat16 won't correctly identify as floating types, we
- * replace them with floats. Everything else gets passed through without
- * modification.
- */
-
-template <typename T>
-constexpr const T& replace_tricky(const T& arg) noexcept
-{
-    return arg;
-}
-
-inline float replace_tricky(const half& arg) noexcept { return float(arg); }
-inline float replace_tricky(const bfloat16& arg) noexcept
-{
-    return float(arg);
-}
 template <typename L, typename R>
 inline bool compare_outer(const L& lhs, const R& rhs) noexcept
 {
-    return compare_wrap(replace_tricky(lhs), replace_tricky(rhs));
+    const auto& wide_lhs = widen(lhs);
+    const auto& wide_rhs = widen(rhs);
+    if constexpr (kind_of<remove_cvref_t<decltype(wide_lhs)>>
+                  <= kind_of<remove_cvref_t<decltype(wide_rhs)>>) {
+        return compare_wide(wide_lhs, wide_rhs);
+    } else {
+        return compare_wide(wide_rhs, wide_lhs);
+    }
 }
 
 template <typename L>
-- 
2.43.0


From c75dfccdf8d137e7878c64bd66acb3fa265af016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 35/41] fix: construction, assignment, negation and arithmetic
 of scalars respect type and ownership

---
 scalars/include/roughpy/scalars/scalar.h |  47 ++++----
 scalars/src/scalar.cpp                   | 138 ++++++++---------------
 scalars/src/scalar/arithmetic.cpp        | 120 +++++++++-----------
 scalars/src/scalar/casts.cpp             |   5 +
 4 files changed, 125 insertions(+), 185 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index 3870767..e6ab6bb 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -95,7 +95,7 @@ inline bool scalar_convert_copy(
         const Scalar& src
 ) noexcept
 {
-    return scalar_convert_copy(dst, ptype.get_type_info(), src);
+    return scalar_convert_copy(dst, type_info_from(ptype), src);
 }
 
 ROUGHPY_SCALARS_EXPORT
@@ -142,7 +142,7 @@ inline ScalarContentType content_type_of(devices::TypeInfo info) noexcept
 inline ScalarContentType
 content_type_of(PackedScalarTypePointer<ScalarContentType> ptype) noexcept
 {
-    return content_type_of(ptype.get_type_info());
+    return content_type_of(type_info_from(ptype));
 }
 
 template <typename T>
@@ -263,7 +263,7 @@ public:
             std::memcpy(trivial_bytes, &value, sizeof(T));
         } else {
             allocate_data();
-            construct_inplace(static_cast<T*>(opaque_pointer), value);
+            *static_cast<T*>(opaque_pointer) = value;
         }
         RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     }
@@ -275,11 +275,10 @@ public:
                     && is_trivially_copyable_v<T>
                     && is_trivially_destructible_v<T>>>
     explicit Scalar(const ScalarType* type, T&& value)
-        : p_type_and_content_type(type, dtl::ScalarContentType::TrivialBytes),
-          integer_for_convenience(0)
+        : Scalar(type)
     {
         dtl::scalar_convert_copy(
-                trivial_bytes,
+                mut_pointer(),
                 type_info(),
                 &value,
                 devices::type_info<remove_cvref_t<T>>()
@@ -296,26 +295,14 @@ public:
                     int>
             = 0>
     explicit Scalar(const ScalarType* type, T&& value)
-        : p_type_and_content_type(type, dtl::ScalarContentType::OwnedPointer),
-          integer_for_convenience(0)
+        : Scalar(type)
     {
-        allocate_data();
-        auto this_info = type_info();
-        auto value_info = devices::type_info<remove_cvref_t<T>>();
-        if (this_info == value_info) {
-            construct_inplace(
-                    static_cast<remove_cvref_t<T>*>(opaque_pointer),
-                    std::forward<T>(value)
-            );
-        } else {
-            dtl::scalar_convert_copy(
-                    opaque_pointer,
-                    this_info,
-                    &value,
-                    value_info,
-                    1
-            );
-        }
+        dtl::scalar_convert_copy(
+                mut_pointer(),
+                type_info(),
+                &value,
+                devices::type_info<remove_cvref_t<T>>()
+        );
     }
 
     explicit Scalar(const ScalarType* type, void* ptr);
@@ -424,7 +411,7 @@ public:
     }
 
     Scalar& operator=(const Scalar& other);
-    Scalar& operator=(Scalar&& other) noexcept;
+    Scalar& operator=(Scalar&& other);
 
     /**
      * @brief Perform a quick test to see if this is zero.
@@ -501,7 +488,13 @@ public:
     void change_type(devices::TypeInfo new_type_info)
     {
         Scalar tmp(new_type_info);
-        dtl::scalar_convert_copy(tmp.mut_pointer(), new_type_info, *this);
+        if (!dtl::scalar_convert_copy(
+                    tmp.mut_pointer(),
+                    new_type_info,
+                    *this
+            )) {
+            throw ScalarConversionException(new_type_info, type_info());
+        }
         this->~Scalar();
         construct_inplace(this, std::move(tmp));
     }
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 65cea7d..0a01be2 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,8 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, dtl::ScalarContentType::OwnedPointer);
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
@@ -147,7 +149,8 @@ void Scalar::copy_from_opaque_pointer(devices::TypeInfo info, const void* src)
     }
 
     const auto dst_info = type_info();
-    if (traits::is_fundamental(dst_info) && dst_info.bytes <= sizeof(void*)) {
+    if (dtl::content_type_of(dst_info)
+        == dtl::ScalarContentType::TrivialBytes) {
         if (info == dst_info) {
             std::memcpy(trivial_bytes, src, info.bytes);
         } else {
@@ -168,38 +171,31 @@ void Scalar::copy_from_opaque_pointer(devices::TypeInfo info, const void* src)
 
 Scalar::Scalar(const Scalar& other) : integer_for_convenience(0)
 {
+    if (other.p_type_and_content_type.is_null()) { return; }
+
     p_type_and_content_type = other.p_type_and_content_type;
-    if (!other.fast_is_zero()) {
-        const auto info = type_info();
-        switch (p_type_and_content_type.get_enumeration()) {
-            case dtl::ScalarContentType::TrivialBytes:
-            case dtl::ScalarContentType::ConstTrivialBytes:
-                std::memcpy(trivial_bytes,
-                            other.trivial_bytes,
-                            sizeof(void*));
-                break;
-            case dtl::ScalarContentType::OpaquePointer:
-            case dtl::ScalarContentType::ConstOpaquePointer:
-                copy_from_opaque_pointer(info, other.opaque_pointer);
-                break;
-            case dtl::ScalarContentType::Interface:
-            case dtl::ScalarContentType::OwnedInterface:
-                copy_from_opaque_pointer(info, other.interface_ptr->pointer());
-                break;
-            case dtl::ScalarContentType::OwnedPointer:
-                // This should only happen if the data type is too large to fit
-                // in inline storage or has a non-trivial
-                // constructor/destructor.
-                allocate_data();
-                auto successful = dtl::scalar_convert_copy(
-                    opaque_pointer,
-                    info,
-                    other.opaque_pointer,
-                    info,
-                    1
-                );
-                RPY_DBG_ASSERT(successful);
-                break;
+    switch (p_type_and_content_type.get_enumeration()) {
+        case dtl::ScalarContentType::TrivialBytes:
+        case dtl::ScalarContentType::ConstTrivialBytes:
+            std::memcpy(trivial_bytes, other.trivial_bytes, sizeof(void*));
+            p_type_and_content_type.update_enumeration(
+                dtl::ScalarContentType::TrivialBytes
+            );
+            break;
+        case dtl::ScalarContentType::OpaquePointer:
+        case dtl::ScalarContentType::ConstOpaquePointer:
+        case dtl::ScalarContentType::OwnedPointer:
+        case dtl::ScalarContentType::Interface:
+        case dtl::ScalarContentType::OwnedInterface: {
+            // Only the value is copied, never the reference to it.
+            const auto* src = other.pointer();
+            if (src == nullptr) {
+                p_type_and_content_type = type_pointer();
+                construct_inplace(this, Scalar(other.p_type_and_content_type));
+            } else {
+                copy_from_opaque_pointer(type_info(), src);
+            }
+            break;
         }
     }
 }
@@ -215,16 +211,15 @@ Scalar::Scalar(Scalar&& other) noexcept
             break;
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
-            opaque_pointer = other.opaque_pointer;
-            other.opaque_pointer = nullptr;
-            break;
         case dtl::ScalarContentType::OwnedPointer:
             opaque_pointer = other.opaque_pointer;
+            other.p_type_and_content_type = type_pointer();
             other.opaque_pointer = nullptr;
             break;
         case dtl::ScalarContentType::Interface:
         case dtl::ScalarContentType::OwnedInterface:
             interface_ptr = other.interface_ptr;
+            other.p_type_and_content_type = type_pointer();
             other.interface_ptr = nullptr;
     }
 }
@@ -241,7 +236,6 @@ Scalar::~Scalar()
             break;
         case dtl::ScalarContentType::Interface:
         case dtl::ScalarContentType::OwnedInterface:
-            RPY_DBG_ASSERT(interface_ptr != nullptr);
             delete interface_ptr;
             interface_ptr = nullptr;
             break;
@@ -257,69 +251,30 @@ Scalar::~Scalar()
 Scalar& Scalar::operator=(const Scalar& other)
 {
     if (&other != this) {
-        if (this->fast_is_zero()) {
-            p_type_and_content_type = other.p_type_and_content_type;
-
-            const auto info = type_info();
-            switch (p_type_and_content_type.get_enumeration()) {
-                case dtl::ScalarContentType::TrivialBytes:
-                case dtl::ScalarContentType::ConstTrivialBytes:
-                    std::memcpy(
-                        trivial_bytes,
-                        other.trivial_bytes,
-                        sizeof(interface_pointer_t)
-                    );
-                    break;
-                case dtl::ScalarContentType::OpaquePointer:
-                case dtl::ScalarContentType::ConstOpaquePointer:
-                    copy_from_opaque_pointer(info, other.opaque_pointer);
-                    break;
-                case dtl::ScalarContentType::OwnedPointer: {
-                    allocate_data();
-                    auto successful = dtl::scalar_convert_copy(
-                        opaque_pointer,
-                        p_type_and_content_type->type_info(),
-                        other.opaque_pointer,
-                        p_type_and_content_type->type_info(),
-                        1
-                    );
-                    RPY_DBG_ASSERT(successful);
-                }
-                    break;
-                case dtl::ScalarContentType::Interface:
-                case dtl::ScalarContentType::OwnedInterface:
-                    copy_from_opaque_pointer(info, other.pointer());
-                    // Copying of interface pointers is disallowed.
-//                    RPY_THROW(
-//                        std::runtime_error,
-//                        "copying of interface pointers "
-//                        "is not allowed"
-//                    );
-            }
+        if (p_type_and_content_type.is_null()) {
+            construct_inplace(this, other);
         } else if (is_interface()) {
             interface_ptr->set_value(other);
-        } else {
-            dtl::scalar_convert_copy(
-                mut_pointer(),
-                type_info(),
-                other
-            );
+        } else if (!dtl::scalar_convert_copy(
+                       mut_pointer(),
+                       type_info(),
+                       other
+                   )) {
+            throw ScalarConversionException(type_info(), other.type_info());
         }
     }
     return *this;
 }
 
-Scalar& Scalar::operator=(Scalar&& other) noexcept
+Scalar& Scalar::operator=(Scalar&& other)
 {
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
-        } else if (is_interface()) {
-            interface_ptr->set_value(other);
         } else {
-            dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
+            // The value is converted to the type of this, see above.
+            operator=(static_cast<const Scalar&>(other));
         }
-
     }
     return *this;
 }
@@ -331,7 +286,7 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
@@ -459,10 +414,11 @@ optional<const ScalarType*> Scalar::type() const noexcept
 
 devices::TypeInfo Scalar::type_info() const noexcept
 {
-    if (p_type_and_content_type.is_pointer()) {
-        return p_type_and_content_type->type_info();
+    // The default value has no type, and no width either.
+    if (p_type_and_content_type.is_null()) {
+        return {devices::TypeCode::Int, 0, 0, 0};
     }
-    return p_type_and_content_type.get_type_info();
+    return type_info_from(p_type_and_content_type);
 }
 
 std::ostream& rpy::scalars::operator<<(std::ostream& os, const Scalar& value)
@@ -486,6 +442,8 @@ void Scalar::from_raw_bytes(devices::TypeInfo info, Slice <byte> bytes)
 {
     // Make sure it is clear
     this->~Scalar();
+    p_type_and_content_type = type_pointer();
+    integer_for_convenience = 0;
     auto tp_o = scalar_type_of(info);
     if (tp_o) {
         p_type_and_content_type
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index fc08b13..ab8bbe2 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -52,51 +52,16 @@ using namespace rpy::scalars;
 
 using rpy::scalars::dtl::ScalarContentType;
 
-static inline void
-uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
-
 Scalar Scalar::operator-() const
 {
-    Scalar result;
-    const auto info = type_info();
-    optional<const ScalarType*> stype;
-    if (!fast_is_zero()) {
-        switch (p_type_and_content_type.get_enumeration()) {
-            case ScalarContentType::TrivialBytes:
-            case ScalarContentType::ConstTrivialBytes:
-                result.p_type_and_content_type = type_pointer(
-                        info,
-                        dtl::ScalarContentType::TrivialBytes
-                );
-                uminus_impl(result.trivial_bytes, trivial_bytes, info);
-                break;
-            case ScalarContentType::OpaquePointer:
-            case ScalarContentType::ConstOpaquePointer:
-            case ScalarContentType::OwnedPointer:
-                stype = type();
-                RPY_CHECK(stype);
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(result.opaque_pointer, opaque_pointer, info);
-                break;
-            case ScalarContentType::Interface:
-            case ScalarContentType::OwnedInterface:
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(
-                        result.opaque_pointer,
-                        interface_ptr->pointer(),
-                        info
-                );
-                break;
-        }
+    // Copying always produces a mutable value of the same type.
+    Scalar result(*this);
+    if (!result.fast_is_zero()) {
+        void* ptr = result.mut_pointer();
+#define X(T) *((T*) ptr) = static_cast<T>(-*((const T*) ptr)); return result
+        DO_FOR_EACH_X(result.type_info())
+#undef X
+        RPY_THROW(std::domain_error, "unsupported operation");
     }
     return result;
 }
@@ -169,7 +134,15 @@ inline void scalar_inplace_arithmetic(
     } else {
         Scalar tmp(dst_info);
         void* tmp_ptr = tmp.mut_pointer();
-        scalars::dtl::scalar_convert_copy(tmp_ptr, dst_info, src, src_info, 1);
+        if (!scalars::dtl::scalar_convert_copy(
+                    tmp_ptr,
+                    dst_info,
+                    src,
+                    src_info,
+                    1
+            )) {
+            throw ScalarConversionException(dst_info, src_info);
+        }
         do_op(dst, tmp_ptr, dst_info, std::forward<Op>(op));
     }
 }
@@ -202,9 +175,10 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 Scalar& Scalar::operator+=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        if (is_interface()) {
+        if (p_type_and_content_type.is_null()) {
+            operator=(other);
+        } else if (is_interface()) {
             interface_ptr->add_inplace(other);
         } else {
             scalar_inplace_arithmetic(*this, other, AddInplace());
@@ -215,9 +189,10 @@ Scalar& Scalar::operator+=(const Scalar& other)
 
 Scalar& Scalar::operator-=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        if (is_interface()) {
+        if (p_type_and_content_type.is_null()) {
+            operator=(-other);
+        } else if (is_interface()) {
             interface_ptr->sub_inplace(other);
         } else {
             scalar_inplace_arithmetic(*this, other, SubInplace());
@@ -228,7 +203,8 @@ Scalar& Scalar::operator-=(const Scalar& other)
 
 Scalar& Scalar::operator*=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
+    // The default value is zero, and so are all multiples of it.
+    if (p_type_and_content_type.is_null()) { return *this; }
     if (!fast_is_zero() && !other.fast_is_zero()) {
         if (is_interface()) {
             interface_ptr->mul_inplace(other);
@@ -287,10 +263,13 @@ do_divide(T* dst, const void* divisor, const devices::TypeInfo& info){
 
 Scalar& Scalar::operator/=(const Scalar& other)
 {
-    if (other.fast_is_zero()) {
+    if (other.is_zero()) {
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    // The default value is zero, and so are all quotients of it.
+    if (p_type_and_content_type.is_null()) { return *this; }
+
     if (is_interface()) {
         interface_ptr->div_inplace(other);
         return *this;
@@ -304,29 +283,34 @@ Scalar& Scalar::operator/=(const Scalar& other)
      * type - as is the case for polynomials.
      * We need to handle both of these cases gracefully.
      */
-    const auto num_info = type_info_from(p_type_and_content_type);
-    const auto true_denom_info = type_info_from(other.p_type_and_content_type);
-    const auto rat_denom_info = traits::rational_type_of(true_denom_info);
-
-    // Set up the actual denominator that we will divide by
-    Scalar rational_denom(true_denom_info, other.pointer());
-    if (rat_denom_info != true_denom_info) {
-        rational_denom.change_type(rat_denom_info);
-    }
-
-    /*
-     * The type resolution needs to be done with the true denominator type,
-     * rather than whatever the rational type is.
-     */
-    if (num_info != true_denom_info) {
-        change_type(dtl::compute_dest_type(
+    if (type_info() != other.type_info()) {
+        const auto out_type = dtl::compute_dest_type(
                 p_type_and_content_type,
                 other.p_type_and_content_type
-        ));
+        );
+        if (out_type != type_info()) { change_type(out_type); }
+    }
+    const auto num_info = type_info();
+
+    // Polynomials are divided by rationals, anything else by its own type.
+    Scalar denom(
+            num_info.code == devices::TypeCode::APRationalPolynomial
+                    ? devices::type_info<rational_scalar_type>()
+                    : num_info
+    );
+    const auto denom_info = denom.type_info();
+    void* const denom_ptr = denom.mut_pointer();
+    if (!dtl::scalar_convert_copy(denom_ptr, denom_info, other)) {
+        RPY_THROW(std::domain_error, "invalid division");
+    }
+    // The conversion of the denominator might not be faithful.
+    if (denom.is_zero()) {
+        RPY_THROW(std::domain_error, "division by zero");
     }
 
     // Now we should be ready
-#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
+#define X(tp)                                                                  \
+    do_divide((tp*) mut_pointer(), denom_ptr, denom_info);                     \
     break
     DO_FOR_EACH_X(num_info)
 #undef X
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..f3435f8 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -167,6 +167,11 @@ bool scalars::dtl::scalar_convert_copy(
         const Scalar& src
 ) noexcept
 {
+    if (src.packed_type_info().is_null()) {
+        // The default value is zero, whatever the type of the destination.
+        const int zero = 0;
+        return convert_impl(dst, dst_type, &zero, 1);
+    }
     auto src_info = src.type_info();
 #define X(TP) return convert_impl(dst, dst_type, (const TP*) src.pointer(), 1)
     DO_FOR_EACH_X(src_info)
-- 
2.43.0


From 4a3d91cef82f354145446e61f4944c404c1697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 36/41] fix: copies of scalar arrays own their numbers, new
 arrays are zero, conversion copies every element

---
 .../include/roughpy/scalars/scalar_array.h    |   9 +
 scalars/src/scalar_array.cpp                  | 170 ++++++++----------
 .../src/scalar_helpers/standard_scalar_type.h |  16 +-
 scalars/src/scalar_type.cpp                   |   2 +-
 4 files changed, 92 insertions(+), 105 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar_array.h b/scalars/include/roughpy/scalars/scalar_array.h
index bdcd343..56ca311 100644
--- a/scalars/include/roughpy/scalars/scalar_array.h
+++ b/scalars/include/roughpy/scalars/scalar_array.h
@@ -72,6 +72,15 @@ class ROUGHPY_SCALARS_EXPORT ScalarArray
 
     static bool check_pointer_and_size(const void* ptr, dimn_t size);
 
+    /// Release what this holds, and leave it empty
+    void reset() noexcept;
+
+    /// Take what other holds, this must not hold anything
+    void take(ScalarArray& other) noexcept;
+
+    /// Make an array of the same type that owns a copy of the data
+    RPY_NO_DISCARD ScalarArray clone() const;
+
 protected:
     RPY_NO_DISCARD
     type_pointer packed_type() const noexcept { return p_type_and_mode; }
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..98a8fcf 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -73,27 +73,15 @@ ScalarArray::ScalarArray(const ScalarArray& other)
 }
 
 ScalarArray::ScalarArray(ScalarArray&& other) noexcept
-    : p_type_and_mode(other.p_type_and_mode),
-      m_size(other.m_size)
+    : const_borrowed(nullptr)
 {
-    switch (p_type_and_mode.get_enumeration()) {
-        case dtl::ScalarArrayStorageModel::BorrowConst:
-            const_borrowed = other.const_borrowed;
-            other.const_borrowed = nullptr;
-            break;
-        case dtl::ScalarArrayStorageModel::BorrowMut:
-            mut_borrowed = other.mut_borrowed;
-            other.mut_borrowed = nullptr;
-            break;
-        case dtl::ScalarArrayStorageModel::Owned:
-            construct_inplace(&owned_buffer, std::move(other.owned_buffer));
-            break;
-    }
+    take(other);
 }
 
 ScalarArray::ScalarArray(const ScalarType* type, dimn_t size)
     : p_type_and_mode(type, dtl::ScalarArrayStorageModel::BorrowConst),
-      const_borrowed(nullptr)
+      const_borrowed(nullptr),
+      m_size(0)
 {
     RPY_DBG_ASSERT(type != nullptr);
     if (size > 0) {
@@ -106,12 +94,16 @@ ScalarArray::ScalarArray(const ScalarType* type, dimn_t size)
 
 ScalarArray::ScalarArray(devices::TypeInfo info, dimn_t size)
     : p_type_and_mode(info, dtl::ScalarArrayStorageModel::Owned),
+      owned_buffer(),
       m_size(size)
 {
     RPY_CHECK(traits::is_fundamental(info));
     if (size != 0) {
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(size*info.alignment, info.alignment);
+        owned_buffer = devices::get_host_device()->raw_alloc(
+                size * info.bytes,
+                info.alignment
+        );
+        std::memset(owned_buffer.ptr(), 0, size * info.bytes);
     }
 }
 
@@ -151,7 +143,7 @@ ScalarArray::ScalarArray(devices::TypeInfo info, devices::Buffer&& buffer)
       m_size(owned_buffer.size() / info.bytes)
 {}
 
-ScalarArray::~ScalarArray()
+void ScalarArray::reset() noexcept
 {
     if (p_type_and_mode.get_enumeration()
         == dtl::ScalarArrayStorageModel::Owned) {
@@ -159,87 +151,73 @@ ScalarArray::~ScalarArray()
     }
     const_borrowed = nullptr;
     p_type_and_mode = type_pointer();
+    m_size = 0;
 }
 
-ScalarArray& ScalarArray::operator=(const ScalarArray& other)
+void ScalarArray::take(ScalarArray& other) noexcept
 {
-    if (&other != this && !other.p_type_and_mode.is_null()) {
-        this->~ScalarArray();
-
-        if (p_type_and_mode.is_null()) {
-            p_type_and_mode = other.p_type_and_mode;
-        }
-
-        auto info = type_info();
-        if (p_type_and_mode.is_pointer()) {
-            auto device = p_type_and_mode->device();
-            owned_buffer = device->raw_alloc(
-                    other.size() * info.bytes,
-                    info.alignment
-            );
-            m_size = other.size();
-            p_type_and_mode->convert_copy(*this, other);
-        } else {
-            RPY_CHECK(traits::is_fundamental(info));
-            auto device = devices::get_host_device();
-
-            m_size = other.size();
-            auto nbytes = m_size * info.bytes;
-            owned_buffer = device->raw_alloc(nbytes, info.alignment);
-
-            if (other.p_type_and_mode.is_pointer()) {
-                other.p_type_and_mode->convert_copy(*this, other);
-            } else {
-                auto other_type_info = other.type_info();
-                RPY_CHECK(traits::is_fundamental(other_type_info));
-                if (info == other_type_info) {
-                    std::memcpy(
-                            owned_buffer.ptr(),
-                            other.raw_pointer(0),
-                            nbytes
-                    );
-                } else {
-                    if (!dtl::scalar_convert_copy(
-                                owned_buffer.ptr(),
-                                info,
-                                other.raw_pointer(0),
-                                other_type_info,
-                                m_size
-                        )) {
-                        RPY_THROW(
-                                std::runtime_error,
-                                "unable to convert scalar array values"
-                        );
-                    }
-                }
-            }
-        }
+    p_type_and_mode = other.p_type_and_mode;
+    m_size = other.m_size;
+    switch (p_type_and_mode.get_enumeration()) {
+        case dtl::ScalarArrayStorageModel::BorrowConst:
+            const_borrowed = other.const_borrowed;
+            break;
+        case dtl::ScalarArrayStorageModel::BorrowMut:
+            mut_borrowed = other.mut_borrowed;
+            break;
+        case dtl::ScalarArrayStorageModel::Owned:
+            construct_inplace(&owned_buffer, std::move(other.owned_buffer));
+            break;
+    }
+    // Nothing is left in other, in particular it has no elements
+    other.reset();
+}
+
+ScalarArray::~ScalarArray() { reset(); }
+
+ScalarArray ScalarArray::clone() const
+{
+    if (p_type_and_mode.is_null()) { return {}; }
+
+    if (p_type_and_mode.is_pointer()) {
+        ScalarArray result(p_type_and_mode.get_pointer(), m_size);
+        if (m_size > 0) { p_type_and_mode->convert_copy(result, *this); }
+        return result;
     }
+
+    ScalarArray result(p_type_and_mode.get_type_info(), m_size);
+    if (m_size > 0) {
+        std::memcpy(
+                result.owned_buffer.ptr(),
+                pointer(),
+                m_size * type_info().bytes
+        );
+    }
+    return result;
+}
+
+ScalarArray& ScalarArray::operator=(const ScalarArray& other)
+{
+    // Make the copy first, the data of other might be part of this.
+    if (&other != this) { operator=(other.clone()); }
     return *this;
 }
 
 ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarArray();
-        p_type_and_mode = other.p_type_and_mode;
-        m_size = other.m_size;
-        switch (p_type_and_mode.get_enumeration()) {
-            case dtl::ScalarArrayStorageModel::BorrowMut:
-                mut_borrowed = other.mut_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::BorrowConst:
-                const_borrowed = other.const_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::Owned:
-                owned_buffer = std::move(other.owned_buffer);
-                break;
-        }
+        // The data of other might be part of this, so keep this alive.
+        ScalarArray old(std::move(*this));
+        take(other);
     }
     return *this;
 }
 
-ScalarArray ScalarArray::copy_or_clone() && { return ScalarArray(); }
+ScalarArray ScalarArray::copy_or_clone() &&
+{
+    if (is_owning()) { return std::move(*this); }
+    return clone();
+}
 
 optional<const ScalarType*> ScalarArray::type() const noexcept
 {
@@ -250,8 +228,11 @@ optional<const ScalarType*> ScalarArray::type() const noexcept
 
 devices::TypeInfo ScalarArray::type_info() const noexcept
 {
-    if (p_type_and_mode.is_pointer()) { return p_type_and_mode->type_info(); }
-    return p_type_and_mode.get_type_info();
+    // The default array has no type
+    if (p_type_and_mode.is_null()) {
+        return {devices::TypeCode::Int, 0, 0, 0};
+    }
+    return type_info_from(p_type_and_mode);
 }
 
 const void* ScalarArray::raw_pointer(dimn_t i) const noexcept
@@ -437,7 +418,10 @@ ScalarArray ScalarArray::operator[](SliceIndex index) const
 
 void ScalarArray::check_for_ptr_access(bool mut) const
 {
-    RPY_CHECK(!p_type_and_mode.is_pointer() || p_type_and_mode->is_cpu());
+    RPY_CHECK(
+            p_type_and_mode.is_null() || !p_type_and_mode.is_pointer()
+            || p_type_and_mode->is_cpu()
+    );
 
     RPY_CHECK(
             !mut
@@ -482,12 +466,10 @@ void ScalarArray::from_raw_bytes(
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
     if (tp_o) {
-        *this = (*tp_o)->allocate(count);
+        *this = ScalarArray(*tp_o, count);
+        if (count == 0) { return; }
     } else {
-        p_type_and_mode
-                = type_pointer(info, dtl::ScalarArrayStorageModel::Owned);
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(count, info.alignment);
+        *this = ScalarArray(info, count);
     }
 
     dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
diff --git a/scalars/src/scalar_helpers/standard_scalar_type.h b/scalars/src/scalar_helpers/standard_scalar_type.h
index 47b92b1..33d06d1 100644
--- a/scalars/src/scalar_helpers/standard_scalar_type.h
+++ b/scalars/src/scalar_helpers/standard_scalar_type.h
@@ -131,6 +131,10 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         // Nothing to do.
         return;
     }
+    if (dst.is_null()) {
+        // There is nothing to convert to, so allocate space for this type.
+        dst = allocate(src.size());
+    }
     if (dst.is_const()) {
         RPY_THROW(std::runtime_error, "unable to copy into const array");
     }
@@ -149,6 +153,7 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         }
     } else if (src_type && src_type != this) {
         (*src_type)->convert_copy(dst, src);
+        return;
     }
 
     auto dst_info = dst.type_info();
@@ -161,10 +166,7 @@ void StandardScalarType<ScalarImpl>::convert_copy(
      */
     auto src_size = src.size();
     auto dst_cap = dst.capacity();
-    if (dst.is_null()) {
-        // If the dst array is empty, allocate enough space for the new data.
-        dst = allocate(src_size);
-    } else if (dst_cap < src_size * dst_info.bytes) {
+    if (dst_cap < src_size * dst_info.bytes) {
         if (dst.is_owning()) {
             if (dst_type) {
                 // If dst_type is defined, then it is this so a simple
@@ -180,12 +182,6 @@ void StandardScalarType<ScalarImpl>::convert_copy(
         } else {
             RPY_THROW(std::runtime_error, "cannot resize a borrowed array");
         }
-    } else if (dst.is_owning() && dst_cap > src_size) {
-        // Just a little care is needed here to make sure the size of the
-        // final array is correct.
-        if (dst_type) {
-            dst = ScalarArray(*dst_type, std::move(dst.mut_buffer()));
-        } else { dst = ScalarArray(dst_info, std::move(dst.mut_buffer())); }
     }
 
     /*
diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From 6a402b0629133b7bbf325a383af1e815bb10e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 37/41] fix: arrays with keys and streams of rows copy and move
 their keys and rows once

---
 .../roughpy/scalars/key_scalar_array.h        |  6 ++
 scalars/src/key_scalar_array.cpp              | 64 ++++++++++---------
 scalars/src/key_scalar_stream.cpp             |  2 -
 scalars/src/scalar_stream.cpp                 |  2 -
 4 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/scalars/include/roughpy/scalars/key_scalar_array.h b/scalars/include/roughpy/scalars/key_scalar_array.h
index e18cffc..2f2c219 100644
--- a/scalars/include/roughpy/scalars/key_scalar_array.h
+++ b/scalars/include/roughpy/scalars/key_scalar_array.h
@@ -50,6 +50,12 @@ class ROUGHPY_SCALARS_EXPORT KeyScalarArray : public ScalarArray
     const key_type* p_keys = nullptr;
     bool m_owns_keys = false;
 
+    /// Release the keys, if they are owned, and leave none
+    void reset_keys() noexcept;
+
+    /// Copy the keys of other, an array of the same size, if they are owned
+    void copy_keys(const KeyScalarArray& other);
+
 public:
     KeyScalarArray() = default;
     ~KeyScalarArray();
diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index df4747b..4d49d43 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -33,22 +33,29 @@
 using namespace rpy;
 using namespace rpy::scalars;
 
-KeyScalarArray::~KeyScalarArray()
+void KeyScalarArray::reset_keys() noexcept
 {
     if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
     p_keys = nullptr;
     m_owns_keys = false;
 }
-KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
-    : ScalarArray(other),
-      p_keys()
+
+void KeyScalarArray::copy_keys(const KeyScalarArray& other)
 {
-    if (other.p_keys != nullptr && other.m_owns_keys) {
-        m_owns_keys = true;
+    if (!other.m_owns_keys) {
+        p_keys = other.p_keys;
+    } else if (other.p_keys != nullptr && !other.empty()) {
         allocate_keys();
-        std::copy_n(other.p_keys, other.size(), const_cast<key_type*>(p_keys));
+        std::copy_n(other.p_keys, other.size(), keys());
     }
 }
+
+KeyScalarArray::~KeyScalarArray() { reset_keys(); }
+KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
+    : ScalarArray(other)
+{
+    copy_keys(other);
+}
 KeyScalarArray::KeyScalarArray(KeyScalarArray&& other) noexcept
     : ScalarArray(std::move(other)), p_keys(other.p_keys), m_owns_keys(other.m_owns_keys)
 {
@@ -74,31 +81,29 @@ KeyScalarArray::KeyScalarArray(
 ) noexcept
     : ScalarArray(type, begin, count), m_owns_keys(false)
 {}
-KeyScalarArray KeyScalarArray::copy_or_move() && {
+KeyScalarArray KeyScalarArray::copy_or_move() &&
+{
+    // The size is lost when the scalars are moved
+    const auto count = size();
+    KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
     if (m_owns_keys) {
-        return std::move(*this);
+        result.p_keys = p_keys;
+        result.m_owns_keys = true;
+        p_keys = nullptr;
+        m_owns_keys = false;
+    } else if (p_keys != nullptr && count > 0) {
+        result.allocate_keys();
+        std::copy_n(p_keys, count, result.keys());
     }
 
-    KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
-    result.allocate_keys();
-    std::copy_n(p_keys, size(), result.keys());
-
     return result;
 }
 KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        reset_keys();
         ScalarArray::operator=(other);
-        if (other.m_owns_keys) {
-            allocate_keys();
-            std::copy_n(other.p_keys, other.size(), keys());
-            m_owns_keys = true;
-        } else {
-            p_keys = other.p_keys;
-            m_owns_keys = false;
-        }
-
+        copy_keys(other);
     }
     return *this;
 }
@@ -106,7 +111,7 @@ KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        reset_keys();
         ScalarArray::operator=(other);
     }
     return *this;
@@ -114,20 +119,19 @@ KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(KeyScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
-
+        reset_keys();
         ScalarArray::operator=(std::move(other));
         p_keys = other.p_keys;
-        other.p_keys = nullptr;
         m_owns_keys = other.m_owns_keys;
-
+        other.p_keys = nullptr;
+        other.m_owns_keys = false;
     }
     return *this;
 }
 KeyScalarArray& KeyScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        reset_keys();
         ScalarArray::operator=(std::move(other));
     }
     return *this;
@@ -146,7 +150,7 @@ void KeyScalarArray::allocate_scalars(idimn_t count) {
 }
 void KeyScalarArray::allocate_keys(idimn_t count) {
     if (count != 0) {
-        if (p_keys != nullptr) { delete[] p_keys; }
+        reset_keys();
 
         if (count == -1) {
             count = static_cast<idimn_t>(size());
diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index a9ca672..13480e9 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -52,7 +52,6 @@ KeyScalarStream::KeyScalarStream(KeyScalarStream&& other) noexcept
 KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<const ScalarStream&>(other));
         m_key_stream = other.m_key_stream;
     }
@@ -61,7 +60,6 @@ KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 KeyScalarStream& KeyScalarStream::operator=(KeyScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<ScalarStream&&>(other));
         m_key_stream = std::move(other.m_key_stream);
     }
diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index c35b7e9..7b6a981 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -77,7 +77,6 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = other.m_stream;
         p_type = other.p_type;
     }
@@ -86,7 +85,6 @@ ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 ScalarStream& ScalarStream::operator=(ScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = std::move(other.m_stream);
         p_type = other.p_type;
     }
-- 
2.43.0


From abff74c61cc54e912be91bb1d01e694bf6bd5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 38/41] fix: labels are compared within their bounds, and
 channels without one get a label of their own

---
 streams/src/schema.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/streams/src/schema.cpp b/streams/src/schema.cpp
index 01fba76..e6ded2a 100644
--- a/streams/src/schema.cpp
+++ b/streams/src/schema.cpp
@@ -68,7 +68,7 @@ bool StreamSchema::compare_labels(
     const auto lend = item_label.end();
     auto rit = ref_label.begin();
 
-    for (; lit != lend || *lit != '\0'; ++lit, ++rit) {
+    for (; lit != lend; ++lit, ++rit) {
         if (*rit != *lit) { return false; }
     }
 
@@ -241,10 +241,14 @@ StreamChannel& StreamSchema::insert(
 )
 {
     RPY_CHECK(!m_is_final);
-    if (label.empty()) { label = std::to_string(size()); }
-
-    // Some users might have labelled their channels using numbers.
-    // Silly, but handle it gracefully.
+    if (label.empty()) {
+        // Some users might have labelled their channels using numbers.
+        // Silly, but handle it gracefully.
+        dimn_t number = size();
+        do {
+            label = std::to_string(number++);
+        } while (contains(label));
+    }
 
     auto pos = find(label);
     if (pos != end()) { return *pos->second; }
-- 
2.43.0


From 505f816ea27ae2027a0209086bb1d7ff8ce5208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 39/41] fix: data for a channel are converted

---
 streams/src/channels/stream_channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/src/channels/stream_channel.cpp b/streams/src/channels/stream_channel.cpp
index dbf04f6..7731a97 100644
--- a/streams/src/channels/stream_channel.cpp
+++ b/streams/src/channels/stream_channel.cpp
@@ -76,7 +76,7 @@ void StreamChannel::convert_input(
         scalars::ScalarArray& dst, const scalars::ScalarArray& src
 ) const
 {
-    if (src.empty() == 0) { return; }
+    if (src.empty()) { return; }
     RPY_CHECK(!src.is_null());
     RPY_CHECK(!dst.empty() || dst.type() != nullptr);
 
-- 
2.43.0


From ebe670b669fb146b2754df3a7ea3495fe2c63387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 40/41] fix: ticks are added to the dimension of their channel
 and variant

---
 .../streams/stream_construction_helper.h      | 33 +++++++++----------
 streams/src/stream_construction_helper.cpp    | 10 +++---
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/streams/include/roughpy/streams/stream_construction_helper.h b/streams/include/roughpy/streams/stream_construction_helper.h
index 0c988fc..6b1227f 100644
--- a/streams/include/roughpy/streams/stream_construction_helper.h
+++ b/streams/include/roughpy/streams/stream_construction_helper.h
@@ -100,18 +100,24 @@ template <typename T>
 void StreamConstructionHelper::add_value(param_t timestamp, dimn_t channel,
                                          T&& value)
 {
-    auto lead_idx = p_schema->channel_variant_to_stream_dim(channel, 0);
-    auto lag_idx = p_schema->channel_variant_to_stream_dim(channel, 1);
+    RPY_CHECK(channel < p_schema->size());
+    const auto lead_idx = p_schema->channel_to_stream_dim(channel);
 
     scalars::Scalar current(std::forward<T>(value));
 
     next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
             += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
+
+    if (p_schema->nth(channel)->second->is_lead_lag()) {
+        // The lag follows the lead, as a separate move.
+        const auto lag_idx
+                = p_schema->channel_variant_to_stream_dim(channel, 1);
+        next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
+                += current - m_previous_values[lag_idx];
+        m_previous_values[lag_idx] = current;
+    }
 
     m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
 }
 template <typename T>
 void StreamConstructionHelper::add_value(param_t timestamp, string_view label,
@@ -120,18 +126,11 @@ void StreamConstructionHelper::add_value(param_t timestamp, string_view label,
     const auto found = p_schema->find(string(label));
     RPY_CHECK(found != p_schema->end());
 
-    auto lead_idx = found->second->variant_id_of_label("lead");
-    auto lag_idx = found->second->variant_id_of_label("lag");
-
-    scalars::Scalar current(std::forward<T>(value));
-
-    next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
-            += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
-
-    m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
+    add_value(
+            timestamp,
+            static_cast<dimn_t>(found - p_schema->begin()),
+            std::forward<T>(value)
+    );
 }
 
 }// namespace streams
diff --git a/streams/src/stream_construction_helper.cpp b/streams/src/stream_construction_helper.cpp
index 9bb45f6..b056eb4 100644
--- a/streams/src/stream_construction_helper.cpp
+++ b/streams/src/stream_construction_helper.cpp
@@ -67,9 +67,11 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
     const auto found = p_schema->find(string(channel));
     RPY_CHECK(found != p_schema->end());
     RPY_CHECK(variant < found->second->num_variants());
-    auto key = static_cast<key_type>(found - p_schema->begin())
-            + static_cast<key_type>(variant) + 1;
-    next_entry(timestamp)[key] += scalars::Scalar(1);
+    add_categorical(
+            timestamp,
+            static_cast<dimn_t>(found - p_schema->begin()),
+            variant
+    );
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
                                                dimn_t channel,
@@ -83,7 +85,7 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
     RPY_CHECK(found != variants.end());
 
     auto key = static_cast<key_type>(p_schema->channel_variant_to_stream_dim(
-            channel, static_cast<dimn_t>(found - variants.begin())));
+            channel, static_cast<dimn_t>(found - variants.begin()))) + 1;
     next_entry(timestamp)[key] += scalars::Scalar(1);
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
-- 
2.43.0


From 908a544a6b79c84f0d703bd031fe792a2b02e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 41/41] fix: tick streams with ticks before and at zero, and
 queries on intervals that are not dyadic or in other contexts

---
 streams/src/tick_stream.cpp | 75 ++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..3ce84fe 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -44,33 +44,23 @@ streams::TickStream::smallest_dyadic_containing_all_events(
         const streams::TickStream::DyadicInterval& di,
         resolution_t resolution) const
 {
-    // std::lower_bound returns an iterator pointing to the first element
-    // in the range [first,last) which does not compare less than val
-    auto be = std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
-                               di.inf());
-    auto en = std::lower_bound(be, m_granular_times.end(), di.sup());
-
-    // clopen be->[t2) en->[t4)
-    //         [t1)[[t2),,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,[t3))[t4)
-    //            inf                                        sup
-    // opencl be->(t1] en->(t3]
-    //         (t1]((t2],,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,(t3]](t4]
-    //            inf                                        sup
+    // The events are in the order of the included ends of the granules. Those
+    // in a clopen interval are not before inf and before sup, those in an
+    // opencl interval are after inf and not after sup.
+    const auto type = di.type();
+    const auto bound = [this, type](auto first, param_t at) {
+        return type == intervals::IntervalType::Clopen
+                ? std::lower_bound(first, m_granular_times.end(), at)
+                : std::upper_bound(first, m_granular_times.end(), at);
+    };
+
+    auto be = bound(m_granular_times.begin(), di.inf());
+    auto en = bound(be, di.sup());
 
     if (en != be) {
-        DyadicInterval back;
-        DyadicInterval i;
-        DyadicInterval j;
-        if (di.type() == intervals::IntervalType::Clopen) {
-            back = DyadicInterval(*(--en), resolution);
-            i = DyadicInterval(*be, resolution);
-        } else {
-            back = DyadicInterval(*en, resolution);
-            i = DyadicInterval(*(++be), resolution);
-        }
-
-        for (; !i.contains_dyadic(DyadicInterval(back.dincluded_end()));
-             j = i.expand_interval(), i = j) {};
+        const DyadicInterval back(*(--en), resolution, type);
+        DyadicInterval i(*be, resolution, type);
+        while (!i.contains_dyadic(back)) { i = i.expand_interval(); }
         return i;
     }
 
@@ -79,17 +69,19 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // An event at zero lies in the interval that starts at zero when intervals
+    // are clopen, and in the one that ends there when they are opencl.
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-        DyadicInterval end(*(--zeu), m_resolution);
-        DyadicInterval i(*m_granular_times.begin(), m_resolution);
-        DyadicInterval j;
-        for (; !i.contains_dyadic(end); j = i.expand_interval(), i = j) {};
+        const auto type = metadata().interval_type;
+        const DyadicInterval end(*(--zeu), m_resolution, type);
+        DyadicInterval i(*m_granular_times.begin(), m_resolution, type);
+        while (!i.contains_dyadic(end)) { i = i.expand_interval(); }
 
         return i;
     }
@@ -109,10 +101,10 @@ streams::TickStream::smallest_dyadic_containing_all_positive_events() const
                                param_t(0));
 
     if (zeu != m_granular_times.end()) {
-        DyadicInterval end(m_granular_times.back(), m_resolution);
-        DyadicInterval i(*(zeu), m_resolution);
-        DyadicInterval j;
-        for (; !i.contains_dyadic(end); j = i.expand_interval(), i = j) {};
+        const auto type = metadata().interval_type;
+        const DyadicInterval end(m_granular_times.back(), m_resolution, type);
+        DyadicInterval i(*(zeu), m_resolution, type);
+        while (!i.contains_dyadic(end)) { i = i.expand_interval(); }
 
         return i;
     }
@@ -224,12 +216,17 @@ algebra::Lie
 streams::TickStream::log_signature_impl(const intervals::Interval& interval,
                                         const algebra::Context& ctx) const
 {
-    RPY_DBG_ASSERT(dynamic_cast<const DyadicInterval*>(&interval) == &interval);
-    if (auto dil = smallest_dyadic_containing_all_events(
-                static_cast<const DyadicInterval&>(interval), m_resolution)) {
+    const auto* dyadic = dynamic_cast<const DyadicInterval*>(&interval);
+    if (dyadic == nullptr) {
+        return StreamInterface::log_signature(interval, m_resolution, ctx);
+    }
+
+    if (auto dil
+        = smallest_dyadic_containing_all_events(*dyadic, m_resolution)) {
         auto found = m_data.find(*dil);
         RPY_DBG_ASSERT(found != m_data.end());
-        return found->second;
+        if (metadata().default_context == &ctx) { return found->second; }
+        return ctx.convert(found->second, metadata().cached_vector_type);
     }
     return ctx.zero_lie(metadata().cached_vector_type);
 }
-- 
2.43.0


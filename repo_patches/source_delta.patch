From ea7203056f0780bf15e12d2354c86fd708196bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 01/16] fix: spline difference with a right-hand side of higher
 degree never terminated

---
 src/bezier_spline.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..aecec5c 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -656,18 +656,19 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
   // Do the same thing to the rhs
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] < degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] < return_spline.GetDegrees()[par_dim]) {
       rhs.OrderElevateAlongParametricDimension(par_dim);
     }
   }
   // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  for (IndexingType i_ctps{};
+       i_ctps < return_spline.GetNumberOfControlPoints(); i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 1ce08e4071174adab3e735b7c2ec291f47cbf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 02/16] fix: derivative spline of an order above the degree
 underflowed the degree

---
 src/bezier_spline.inc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index aecec5c..645627d 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -243,6 +243,18 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         return result + "]";
       }(orders));
 
+  // Derivatives of an order higher than the polynomial degree vanish
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    if (orders[i_para_dim] > degrees[i_para_dim]) {
+      auto zero_degrees = degrees;
+      for (IndexingType i{}; i < parametric_dimension; i++) {
+        zero_degrees[i] -= std::min(orders[i], degrees[i]);
+      }
+      return BezierSpline{zero_degrees};
+    }
+  }
+
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
   // Create a copy of control points (later be used for in place operations)
-- 
2.43.0


From abc6a5bfb80535028716fa7333ffd6d5e9f4affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 03/16] fix: composition with a group of inner functions did
 not compile

---
 src/bezier_spline.inc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 645627d..89f6f70 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1071,17 +1071,23 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
+  // Check if the inner functions fit into the unit cube
+  for (const auto& inner_function : inner_function_group) {
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner functions must fit unit cube to "
+          "perform composition");
+    }
   }
 
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
+  // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
+  if constexpr (std::is_arithmetic_v<typename SplineType::PhysicalPointType_>) {
+    static_assert(parametric_dimension == 1, "Dimension mismatch");
+  } else {
+    static_assert(SplineType::PhysicalPointType_::kSpatialDimension ==
+                      parametric_dimension,
+                  "Dimension mismatch");
+  }
 
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
-- 
2.43.0


From d61c357a8db99f6110cdad6e178c72017e2466c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 04/16] fix: rational-rational composition accepted inner
 functions outside the unit cube

---
 src/rational_bezier_spline.hpp | 7 +++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..2247e16 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,13 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
+
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..66b9e2a 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -785,6 +785,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From a0692b8eff08ece1e76dacf3a9735a4aeee6f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 05/16] fix: forward evaluation of a rational spline did not
 divide by the weight function

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 66b9e2a..ddb15fe 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -213,8 +213,8 @@ constexpr PhysicalPointType RationalBezierSpline<
                         GetWeightedControlPoints()[i_basis_function];
   }
 
-  // Add up the individual contributions
-  return evaluation_point;
+  // Divide through weight function value
+  return evaluation_point / weight_function_.ForwardEvaluate(par_coords);
 }
 
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From 1c09ee4188a490fe95b92227c9e7fa2d73242971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 06/16] fix: indexed control point access of a rational spline
 used the last index only

---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index ddb15fe..e5e5c7c 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From 980097a56f4ef52dd21c53bc0680035feeb5b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 07/16] fix: derivative spline of a rational spline of degree
 zero had mismatching degrees

---
 src/rational_bezier_spline.inc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index e5e5c7c..f385a7b 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -528,15 +528,20 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // Degree zero is not reduced by the derivative and already matches
+      if (derivative.GetDegrees()[i_para_dim] > 0) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
       derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
+          numerator,
           // v^2
           derivative.GetWeightFunctionSpline() *
               derivative.GetWeightFunctionSpline());
-- 
2.43.0


From 12516594ec8902578ac9f21e3109aefe8f5ada0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 08/16] fix: fitting a spline without extension in one
 dimension into the unit cube divided by zero

---
 src/bezier_spline.inc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 89f6f70..6944c57 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -849,12 +849,18 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
+  // Dimensions without extension can only be shifted
   if constexpr (std::is_scalar_v<PhysicalPointType>) {
-    scale_vector = static_cast<ScalarType>(1) / scale_vector;
+    scale_vector = (scale_vector > static_cast<ScalarType>(0))
+                       ? static_cast<ScalarType>(1) / scale_vector
+                       : static_cast<ScalarType>(1);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
          i_dim++) {
-      scale_vector[i_dim] = static_cast<ScalarType>(1) / scale_vector[i_dim];
+      scale_vector[i_dim] = (scale_vector[i_dim] > static_cast<ScalarType>(0))
+                                ? static_cast<ScalarType>(1) /
+                                      scale_vector[i_dim]
+                                : static_cast<ScalarType>(1);
     }
   }
   return TransposeAndScale(-minimum_corner, scale_vector);
-- 
2.43.0


From 4efdc13d738402719e3d469752a4518f1f03e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 09/16] fix: in-place spline operations read their operand
 after overwriting it

---
 src/bezier_spline.inc          | 20 ++++++++++++++------
 src/rational_bezier_spline.inc |  8 ++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 6944c57..c6b85f1 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -514,8 +514,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // The argument may refer to one of the control points
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -525,8 +527,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // The argument may refer to one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -546,8 +550,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // The argument may refer to one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
@@ -826,15 +832,17 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // The arguments may refer to control points
+  const PhysicalPointType shift{transposition};
+  const PhysicalPointType factor{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * factor;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * factor[i_dim];
       }
     }
   }
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index f385a7b..6417c47 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -579,11 +579,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
+  // The argument may refer to one of the weighted control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -608,11 +610,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
+  // The argument may refer to one of the weighted control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From 72394a415fc9837102b088380ba80e986e67123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 10/16] fix: power of a differentiable number with base zero
 was not a number

---
 .../computational_differentiation/algo_diff_type.inc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..7e27df4 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -264,6 +264,18 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
   Scalar tmp;
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
+    if (base.v_ == Scalar{}) {
+      // The product of the base and its (power - 1) is undefined for a base of
+      // zero and powers below one, and so is its multiple for a power of zero
+      AlgoDiffType<Scalar, numberOfDerivatives> result_at_zero{base};
+      result_at_zero.v_ = std::pow(base.v_, power);
+      const Scalar slope =
+          power == Scalar{} ? Scalar{} : power * std::pow(base.v_, power - 1.0);
+      for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
+        result_at_zero.d_[i] *= slope;
+      }
+      return result_at_zero;
+    }
     tmp = std::pow(base.v_, power - 1.0);
   } else {
     tmp = pow(base.v_, power - 1.0);
-- 
2.43.0


From 78e12903c569254003392cca725d5c4719bd2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 11/16] fix: nested differentiable numbers had a wrong arc
 cosine and no arc sine or scalar division

---
 .../computational_differentiation/algo_diff_type.inc      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 7e27df4..c6db064 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -185,7 +185,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b = 1. / b;
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
@@ -422,8 +422,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -441,7 +441,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From ef95fd2c41ce4bfd1605e308c49b51c1674e1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 12/16] fix: scaling a point by one of its own coordinates used
 the already scaled coordinate

---
 src/point.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..fdd2945 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy, as scale might refer to an entry of this point
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
-- 
2.43.0


From 8207203c1fb82a1b4058f42dddbabb5bc7e81c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 13/16] fix: IntPower computes in the requested integral type

The intermediate result was stored in an int: results beyond int were wrong
for wide types, and narrow types did not compile.
---
 src/utils/algorithms/int_power.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..e0ed15f 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -37,7 +37,8 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType half_power = power / 2;
+  const IntegralType tmp = IntPower(base, half_power);
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 852b5cfbb5a8fd272e0f4e740ae89bf882f183c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 14/16] fix: Base64::Encode stays within its data

The last group read up to two bytes past the data whenever the number of bytes
is not a multiple of three, which also put foreign bits in the text, and an
empty vector was indexed.
---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From cf10d23273e2ac2a2c75a577039bdae95793d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 15/16] fix: Base64::Decode honours fill characters and stays
 within its result

Fill characters were counted as data, which returned extra entries for one and
two byte types, bytes that do not complete an entry were written past the end
of the result, an empty result was indexed, and characters with a negative code
indexed the table out of bounds.
---
 src/utils/base64.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..e1b941e 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,24 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
+    // Trailing fill characters do not represent any data
+    std::size_t number_of_bytes{number_of_groups * 3};
+    for (std::size_t i{1}; i <= 2 && i <= base64string.size() &&
+                           base64string[base64string.size() - i] == '=';
+         i++) {
+      number_of_bytes--;
+    }
+    const std::size_t number_of_output_values{number_of_bytes /
                                               length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
+    // Bytes that do not complete an entry are not written
+    const std::size_t number_of_output_bytes{number_of_output_values *
+                                             length_of_entry};
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -219,21 +229,21 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<ByteRepresentation>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
+      if (buffer[1] != 255 && i_group * 3 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From 8ab188889064b297dddd1b0c190951d6ef583fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 16/16] fix: a terminating error keeps the records written
 before it

The files were closed when a terminating error was raised and truncated when
they were opened again for the next message; files that were no longer enabled
were not written out at all.
---
 src/utils/logger.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..26f98a5 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,11 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Flush file streams in order to save error files (closing them would
+    // discard their records as soon as they are opened again)
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
-- 
2.43.0


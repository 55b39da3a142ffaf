From 44f269cbd2c57c27472870615f6748943806d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 01/10] fix: range of non-periodic splines of even order

The right end of the range was one knot too far to the left, so that
the last part of the data range was rejected by at().
---
 src/include/BSpline.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..c43f896 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,9 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1 -
+                            // periodic spline of even order has one extra knot
+                            (periodicity_[dim_ind] ? 1 - order % 2 : 0)];
     }
 
 #ifdef INTP_CELL_LAYOUT
-- 
2.43.0


From 812915720828808d2cd99aad7b0f00320b726d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 02/10] fix: reduce periodic coordinates to the half-open base
 interval

A coordinate that is exactly an integer number of periods to the left of
the base interval was reduced to its right end. The highest derivative
then came from the wrong piece, and for even orders evaluation read
beyond the control points.
---
 src/include/BSpline.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index c43f896..7cde314 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -130,9 +130,12 @@ class BSpline {
         if (periodicity_[dim_ind]) {
             const knot_type period =
                 range(dim_ind).second - range(dim_ind).first;
+            const knot_type offset =
+                std::fmod(x - range(dim_ind).first, period);
             x = range(dim_ind).first +
-                std::fmod(x - range(dim_ind).first, period) +
-                (x < range(dim_ind).first ? period : knot_type{});
+                (offset < knot_type{} ? offset + period : offset);
+            // Both additions can be rounded up to the (excluded) right end
+            if (!(x < range(dim_ind).second)) { x = range(dim_ind).first; }
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From 69ff69efc19a50e8a4d08c9e01a21b7f2b735e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 03/10] fix: BandMatrix product used the transposed matrix

---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..e68fda9 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += bands_(j, i + q_ - j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From ce318699be83fed4860d4087df5ff956babf6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 04/10] fix: BandLU::compute does not move from an lvalue
 matrix

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From b7ceef373d9b06d13d86ad84b878027783930dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 05/10] fix: eval_proxy on periodic axes of even order

The cell position was computed from the number of knots, which is one
larger for periodic axes of even order. Take it from the control points
of the function the proxy is applied to.
---
 src/include/BSpline.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 7cde314..ce614d7 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -272,15 +272,15 @@ class BSpline {
                          order;
         }
 
-        auto total_offset = calculate_cell_dim_from_knots().indexing(ind_arr);
-
         return
-            [base_spline_values_1d, total_offset](const spline_type& spline) {
+            [base_spline_values_1d, ind_arr](const spline_type& spline) {
                 val_type v{};
 
                 const auto& control_points = spline.control_points();
-                auto cell_iter = control_points.begin() +
-                                 static_cast<std::ptrdiff_t>(total_offset);
+                auto cell_iter =
+                    control_points.begin() +
+                    static_cast<std::ptrdiff_t>(
+                        control_points.dimension().indexing(ind_arr));
                 for (size_type i = 0;
                      i < control_points.dim_size(dim) * (order + 1); ++i) {
                     knot_type coef = 1;
@@ -669,16 +669,6 @@ class BSpline {
     }
 
 #ifdef INTP_CELL_LAYOUT
-    MeshDimension<dim + 1> calculate_cell_dim_from_knots() const {
-        MeshDimension<dim + 1> cell_dim(util::pow(order + 1, dim - 1));
-        for (size_type d = 0; d < dim; ++d) {
-            cell_dim.dim_size(d) = knots_[d].size() -
-                                   (periodicity(d) ? order + 1 : order + 1) -
-                                   (d == dim - 1 ? 0 : order);
-        }
-        return cell_dim;
-    }
-
     ControlPointCellContainer generate_cell_layout(
         const ControlPointContainer& ctrl_pts) const {
         MeshDimension<dim + 1> cell_container_dim(
-- 
2.43.0


From 7f8afad23e44f5e2ada9a4cd3864c800ef559cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 06/10] fix: copies of an interpolation template keep their
 solvers before C++17

---
 src/include/InterpolationTemplate.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..40e6b42 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,18 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (is_active_) {
+                if (is_periodic_) {
+                    new (&solver_periodic)
+                        extended_solver_type(other.solver_periodic);
+                } else {
+                    new (&solver_aperiodic)
+                        base_solver_type(other.solver_aperiodic);
+                }
+            }
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From e69f49f00490dd2f2b1161cd7479e6fdd5d2d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 07/10] fix: const axis end iterator and iterator comparisons
 did not compile

---
 src/include/Mesh.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..5aea13f 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -161,7 +161,7 @@ class Mesh {
         // forward iterator requirement
 
         reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        pointer operator->() { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -216,7 +216,7 @@ class Mesh {
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From eb51cfdd646acbc2c0d91fe27cfcbdbefccd5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 08/10] fix: explicit coordinates on a non-periodic axis of
 order zero

The average over an empty window is undefined, and one coordinate beyond
the end was read.
---
 src/include/Interpolation.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..0f9b5ce 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -415,6 +415,17 @@ class InterpolationFunction {
                 xs[i] = xs[n + i - 1] - period;
                 xs[xs.size() - i - 1] = xs[xs.size() - i - n] + period;
             }
+        } else if (order == 0) {
+            // Piecewise constant, knots are in the middle of data points.
+
+            auto it = x_range.first;
+            input_coord.emplace_back(*it);
+            xs[0] = input_coord[0];
+            for (size_type i = 1; i < n; ++i) {
+                input_coord.emplace_back(*(++it));
+                xs[i] = coord_type{.5} * (input_coord[i - 1] + input_coord[i]);
+            }
+            xs[n] = input_coord[n - 1];
         } else {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
-- 
2.43.0


From 94c0b1a2982f8d36410e485167039f560721a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:06 +0000
Subject: [PATCH 09/10] fix: far away coordinates overflowed the position hint

---
 src/include/Interpolation.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 0f9b5ce..db446d1 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -283,13 +283,17 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(
                       spline_.knots_num(di) - order - 2,
-                      static_cast<size_type>(std::ceil(std::max(
-                          coord_type{0.},
-                          (c[di] - range(di).first) / dx_[di] -
-                              (periodicity(di)
-                                   ? coord_type{1.}
-                                   : coord_type{.5} * static_cast<coord_type>(
-                                                          order + 1))))) +
+                      static_cast<size_type>(std::ceil(std::min(
+                          // keep the value representable
+                          static_cast<coord_type>(spline_.knots_num(di)),
+                          std::max(
+                              coord_type{0.},
+                              (c[di] - range(di).first) / dx_[di] -
+                                  (periodicity(di)
+                                       ? coord_type{1.}
+                                       : coord_type{.5} *
+                                             static_cast<coord_type>(
+                                                 order + 1)))))) +
                           order)
                 : order)...};
     }
@@ -307,12 +311,16 @@ class InterpolationFunction {
             static_cast<coord_type>(c[di]),
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
-                           static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
+                           static_cast<size_type>(std::ceil(std::min<double>(
+                               // keep the value representable
+                               static_cast<double>(spline_.knots_num(di)),
+                               std::max<double>(
+                                   0.,
+                                   (c[di] - range(di).first) / dx_[di] -
                                        (periodicity(di)
                                             ? 1.
                                             : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
+                                                       order + 1)))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From 2a54fbb27da643da1ce6f8b5044ef74f425e237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:37 +0000
Subject: [PATCH 10/10] fix: default range of 1D periodic templates without
 closing point

InterpolationFunctionTemplate1D used a period that is one grid spacing
shorter than the one of InterpolationFunction1D for the same data.
---
 src/include/InterpolationTemplate.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 40e6b42..e737ffe 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -600,7 +600,14 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(
+                      f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                      - (periodicity ? 0 : 1)
+#else
+                      - 1
+#endif
+                          )),
               f_length,
               periodicity) {}
 
-- 
2.43.0


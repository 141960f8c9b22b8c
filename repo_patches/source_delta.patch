From 0a592b84e89418ac26e41fd46a87e6aeefaaf3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 01/50] fix: spanning trees of graphs which contain self edges

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..6e63bc4 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,10 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  // The starting vertex is part of the tree, otherwise an edge from it to
+  // itself would be considered a way of reaching it.
+  output.vertices.insert(first_edge.a);
+
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From 601b0d2ff21c1850c8bcda4eb86f367696eb6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 02/50] fix: graph stream operator writes to the given stream

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index 6e63bc4..b97555f 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -281,7 +281,7 @@ template <typename VertexType>
 inline std::ostream &operator<<(std::ostream &os,
                                 const Graph<VertexType> &graph) {
   for (const auto &edge : graph.edges) {
-    std::cout << edge << std::endl;
+    os << edge << std::endl;
   }
   return os;
 }
-- 
2.43.0


From 538be27a9214ce3547ad7a1c7319ebd6aeb98af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/50] fix: maybe_decompress reports failure for impossible
 content sizes

---
 include/albatross/src/utils/compress.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/albatross/src/utils/compress.hpp b/include/albatross/src/utils/compress.hpp
index cb6cf4b..3d40f53 100644
--- a/include/albatross/src/utils/compress.hpp
+++ b/include/albatross/src/utils/compress.hpp
@@ -186,6 +186,11 @@ maybe_decompress(const std::string &input, std::string *output) {
     return false;
   }
 
+  // A damaged header can claim a size no string can hold.
+  if (decompressed_size > output->max_size()) {
+    return false;
+  }
+
   output->resize(decompressed_size);
   const auto result = internal::maybe_decompress(
       input, const_cast<void *>(static_cast<const void *>(output->data())),
-- 
2.43.0


From eb903700507eb248f02ce9aba5fea3e2884ddf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 04/50] fix: joint distribution stream operator writes to the
 given stream

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..f090580 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From 44144278ff19237c37c6c965ac5ab0b141839b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 05/50] fix: set_subset of a distribution passes the derived
 distribution on

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index f090580..5a95804 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -243,7 +243,7 @@ template <typename SizeType, typename DistributionType>
 inline void set_subset(const DistributionBase<DistributionType> &from,
                        const std::vector<SizeType> &indices,
                        DistributionBase<DistributionType> *to) {
-  to->derived().set_subset(from, indices);
+  to->derived().set_subset(from.derived(), indices);
 }
 
 template <typename Derived>
-- 
2.43.0


From d6f9af2cdffff566bc9bbc073f780af53a53ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 06/50] fix: build_block_symmetric accepts a plain LDLT, which
 updating a Gaussian process passes

---
 include/albatross/src/linalg/block_symmetric.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..1b31ab3 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -125,6 +125,15 @@ BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
   return BlockSymmetric<Solver>(A, B, S);
 }
 
+// A plain LDLT converts to both a SerializableLDLT and a MatrixXd, so
+// without this overload a call which provides one would be ambiguous.
+template <typename Solver>
+BlockSymmetric<Solver>
+build_block_symmetric(const Solver &A, const Eigen::MatrixXd &B,
+                      const Eigen::LDLT<Eigen::MatrixXd> &S) {
+  return BlockSymmetric<Solver>(A, B, Eigen::SerializableLDLT(S));
+}
+
 template <typename Solver>
 BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
                                              const Eigen::MatrixXd &B,
-- 
2.43.0


From 121fd79eb9ca8afa2a4e8838f8fd91ed41b10ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 07/50] fix: Constant leaves composite features to the callers,
 so a measurement of a linear combination keeps its other terms and
 coefficients

---
 .../albatross/src/covariance_functions/polynomials.hpp   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/polynomials.hpp b/include/albatross/src/covariance_functions/polynomials.hpp
index 1c39d63..1ac1d78 100644
--- a/include/albatross/src/covariance_functions/polynomials.hpp
+++ b/include/albatross/src/covariance_functions/polynomials.hpp
@@ -52,8 +52,15 @@ public:
    *     sigma_mean^2 * ones(m, n)
    * which is saying all observations are perfectly correlated,
    * so you can move one if you move the rest the same amount.
+   *
+   * It's only defined for basic types, composite types (measurements,
+   * linear combinations and variants) are expanded by the callers.  If
+   * it were defined for those directly it would hide, for example, the
+   * coefficients in a measurement of a linear combination.
    */
-  template <typename X, typename Y>
+  template <typename X, typename Y,
+            typename std::enable_if_t<
+                is_basic_type<X>::value && is_basic_type<Y>::value, int> = 0>
   double _call_impl(const X &x __attribute__((unused)),
                     const Y &y __attribute__((unused))) const {
     return sigma_constant.value * sigma_constant.value;
-- 
2.43.0


From a708f1e66675ef35c202f85752bf13f1a133ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 08/50] fix: a scaling term scales a measurement and a plain
 feature alike when given one of each

---
 .../albatross/src/covariance_functions/scaling_function.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/scaling_function.hpp b/include/albatross/src/covariance_functions/scaling_function.hpp
index 62351ec..f308f86 100644
--- a/include/albatross/src/covariance_functions/scaling_function.hpp
+++ b/include/albatross/src/covariance_functions/scaling_function.hpp
@@ -88,10 +88,13 @@ public:
 
   /*
    * If only one of the types has a scaling function we ignore the other.
+   * The ignored type needs to be a basic one, otherwise the scaling of a
+   * measurement of something which has a scaling function would be lost.
    */
   template <typename X, typename Y,
             typename std::enable_if<
                 (!has_valid_call_impl<ScalingFunction, X &>::value &&
+                 is_basic_type<X>::value &&
                  has_valid_call_impl<ScalingFunction, Y &>::value),
                 int>::type = 0>
   double _call_impl(const X &, const Y &y) const {
@@ -101,7 +104,8 @@ public:
   template <typename X, typename Y,
             typename std::enable_if<
                 (has_valid_call_impl<ScalingFunction, X &>::value &&
-                 !has_valid_call_impl<ScalingFunction, Y &>::value),
+                 !has_valid_call_impl<ScalingFunction, Y &>::value &&
+                 is_basic_type<Y>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &) const {
     return this->scaling_function_._call_impl(x);
-- 
2.43.0


From d885e5108e7c45e590a4f9b8e08002181b0780fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 09/50] fix: composed mean functions leave composite features
 to the callers, so the mean of a measured linear combination is linear

---
 .../covariance_functions/mean_function.hpp    | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index ea0f541..125f8b1 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -167,8 +167,8 @@ public:
    * this will return the sum of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x) + this->rhs_(x);
@@ -178,8 +178,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -189,8 +189,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -232,8 +232,8 @@ public:
    * this will return the product of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     double output = this->lhs_(x);
@@ -247,8 +247,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -258,8 +258,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -272,7 +272,11 @@ protected:
 };
 
 struct ZeroMean : public MeanFunction<ZeroMean> {
-  template <typename X> double _call_impl(const X &) const { return 0.; }
+  template <typename X,
+            typename std::enable_if_t<is_basic_type<X>::value, int> = 0>
+  double _call_impl(const X &) const {
+    return 0.;
+  }
 };
 
 template <typename Derived>
-- 
2.43.0


From 37891e265b8cfdff5d4b8f87a83dcf168b85ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 10/50] fix: deriving a Matern length scale converges to the
 requested increase, by keeping the solution bracketed

---
 .../src/covariance_functions/radial.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a129b3e..d98e0c0 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -317,14 +317,20 @@ inline double newton_solve(double guess, double target, Func func, Grad grad,
       break;
     }
 
-    if (guess - delta <= lower_bound) {
-      guess = 0.5 * (guess + lower_bound);
-    } else if (guess - delta >= upper_bound) {
-      guess = 0.5 * (guess + upper_bound);
+    // func is monotone, so the sign of the step tells which side of the guess
+    // the solution is on; keeping it bracketed makes sure a poor step cannot
+    // push the guess away from the solution for good.
+    if (delta > 0.) {
+      upper_bound = guess;
     } else {
-      guess -= delta;
+      lower_bound = guess;
+    }
+    const double step = guess - delta;
+    if (step > lower_bound && step < upper_bound) {
+      guess = step;
+    } else {
+      guess = sqrt(lower_bound) * sqrt(upper_bound);
     }
-    guess = std::min(upper_bound, std::max(lower_bound, guess));
   }
   return guess;
 }
-- 
2.43.0


From 62b2c1bc226e96f2b0697cf44c274e6d91037c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 11/50] fix: pooled apply waits for all of its tasks before it
 passes on an error

---
 include/albatross/src/utils/async_utils.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..be1360e 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,24 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+// The tasks usually refer to variables of whoever called apply, so none of
+// them may still be running (or waiting to run) when apply returns, including
+// when it returns because one of them threw.
+template <typename ResultType>
+inline void wait_for_all(const std::vector<std::future<ResultType>> &futures) {
+  for (const auto &f : futures) {
+    f.wait();
+  }
+}
+
+template <typename KeyType, typename ResultType>
+inline void
+wait_for_all(const Grouped<KeyType, std::future<ResultType>> &futures) {
+  for (const auto &f : futures) {
+    f.second.wait();
+  }
+}
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -41,6 +59,7 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -64,6 +83,7 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
     futures.emplace_back(pool->enqueue(func, x));
   }
 
+  detail::wait_for_all(futures);
   std::vector<ApplyType> output;
   for (auto &f : futures) {
     output.emplace_back(f.get());
@@ -90,6 +110,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -115,6 +136,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
@@ -142,6 +164,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -168,6 +191,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.first, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
-- 
2.43.0


From c980d0992a661529dc11ca16108177eeea42f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 12/50] fix: map operations return maps ordered by their
 input's comparator

The maps returned by the map operations were default constructed, which
loses the state of a comparator with any: a result came out in another
order than its inputs, or the null function was called.
---
 include/albatross/src/utils/map_utils.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/utils/map_utils.hpp b/include/albatross/src/utils/map_utils.hpp
index 7c52f93..c35a9fa 100644
--- a/include/albatross/src/utils/map_utils.hpp
+++ b/include/albatross/src/utils/map_utils.hpp
@@ -222,7 +222,8 @@ void map_union(const Map1 &a, const Map2 &b, AddA &&add_a, AddB &&add_b,
 //    accessible via `.begin()` and `.end()`.
 //
 //  - Map types used for returned maps (i.e. `a`'s map type) must
-//    offer `.emplace_hint(const_iterator, key, value)`.
+//    offer `.emplace_hint(const_iterator, key, value)` and be
+//    constructible from their comparator.
 //
 // Since this comparator must be the same between both types, if `a`
 // and `b` have different key types, this comparator must implement
@@ -283,7 +284,7 @@ void map_union(const Map1 &a, const Map2 &b, AddA &&add_a, AddB &&add_b,
 template <typename Map1, typename Map2,
           typename = std::enable_if_t<has_same_key_compare_v<Map1, Map2>, void>>
 [[nodiscard]] Map1 map_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  Map1 diff(a.key_comp());
   const auto only_a = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -322,7 +323,7 @@ template <typename Map1, typename Map2,
                                  typename Map2::mapped_type>,
               void>>
 [[nodiscard]] Map1 map_symmetric_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  Map1 diff(a.key_comp());
   const auto either = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -418,7 +419,7 @@ template <typename Map1, typename Map2, typename Merge = ReturnLeft,
               void>>
 [[nodiscard]] Map1 map_union(const Map1 &a, const Map2 &b,
                              Merge &&merge = ReturnLeft{}) {
-  Map1 result;
+  Map1 result(a.key_comp());
   const auto add_a = [&result](const auto &k, const auto &av) {
     result.emplace_hint(result.end(), k, av);
   };
@@ -495,7 +496,7 @@ template <template <typename...> typename Map, typename K, typename V,
 map_intersect(const Map<K, V, Compare> &a, const Map2 &b,
               Merge &&merge = MakePair{}) {
   IntersectedMapType<Map, K, V, typename Map2::mapped_type, Merge, Compare>
-      intersection;
+      intersection(a.key_comp());
   const auto on_both = [&intersection, merge = std::forward<Merge>(merge)](
                            const auto &k, const auto &av, const auto &bv) {
     intersection.emplace_hint(intersection.end(), k,
@@ -598,7 +599,7 @@ template <
     typename Map, typename Sequence,
     typename = std::enable_if_t<has_same_key_compare_v<Map, Sequence>, void>>
 [[nodiscard]] Map map_subset(const Map &m, const Sequence &keys) {
-  Map results;
+  Map results(m.key_comp());
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
@@ -635,7 +636,7 @@ template <typename Map, typename Sequence>
   ALBATROSS_ASSERT(std::is_sorted(keys.begin(), keys.end(), m.key_comp()) &&
                    "You promised when you called this function that the `keys` "
                    "would be sorted!");
-  Map results;
+  Map results(m.key_comp());
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
-- 
2.43.0


From 8d32fb2df3ec639595c8d2e8a418d55feda5718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 13/50] fix: log densities of the normal and log normal priors

The normal priors multiplied log(2 pi) with the log variance instead of
adding them, the log normal one used twice the squared deviation. Outside
of their support the densities are zero.
---
 include/albatross/src/core/priors.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..1e7829e 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -161,8 +161,11 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (x < 0.) {
+      return -LARGE_VAL;
+    }
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
@@ -184,8 +187,11 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (x <= 0.) {
+      return -LARGE_VAL;
+    }
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - 0.5 * deviation * deviation;
   }
 
   double mu_;
-- 
2.43.0


From 377f468e668f20bfb1165884d31723b2ff2b87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 14/50] fix: uniform priors with different bounds are not equal

Equality compared their names, in which the bounds are rounded to six
digits.
---
 include/albatross/src/core/priors.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 1e7829e..abf62bc 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,11 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  // The name holds too few digits to tell similar bounds apart.
+  bool operator==(const UniformPrior &other) const {
+    return other.lower_ == lower_ && other.upper_ == upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
-- 
2.43.0


From bed1d2488adaf672d053d76943437d61811f47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 15/50] fix: update Gaussian processes with measurements of the
 new features

---
 include/albatross/src/models/gp.hpp | 56 ++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..8fa170d 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -152,6 +152,27 @@ gp_fit_from_prediction(const std::vector<FeatureType> &features,
   return fit;
 }
 
+namespace details {
+
+/*
+ * The number of leading train features which came from a prediction (see
+ * gp_fit_from_prediction) instead of from measurements.
+ */
+template <typename Solver> Eigen::Index predicted_size(const Solver &) {
+  return 0;
+}
+
+inline Eigen::Index predicted_size(const ExplainedCovariance &covariance) {
+  return covariance.rows();
+}
+
+template <typename Solver>
+Eigen::Index predicted_size(const BlockSymmetric<Solver> &covariance) {
+  return predicted_size(covariance.A);
+}
+
+} // namespace details
+
 template <typename CovFunc, typename MeanFunc>
 std::string default_model_name(const CovFunc &cov_func,
                                const MeanFunc &mean_func) {
@@ -388,16 +409,20 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
-                                    PredictTypeIdentity<JointDistribution>());
+    // The new targets are measurements of the features, just like the ones
+    // used in _fit_impl.
+    const auto measurements = as_measurements(features);
+    const Eigen::MatrixXd cross =
+        conditioned_cross_covariance(fit_, measurements);
+    const Eigen::MatrixXd prior_cov = covariance_function_(measurements);
+    auto pred = gp_joint_prediction(cross, prior_cov, fit_.information,
+                                    fit_.train_covariance);
+    mean_function_.add_to(measurements, &pred.mean);
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
     const auto S_ldlt = pred.covariance.ldlt();
 
-    const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
-
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
 
@@ -451,6 +476,27 @@ public:
   }
 
 protected:
+  /*
+   * The covariance between the variables a fit was conditioned on and new
+   * measurements.  The training data consists of measurements, the leading
+   * features of a fit built from a prediction are not.
+   */
+  template <typename Solver, typename FitFeatureType,
+            typename MeasurementFeatureType>
+  Eigen::MatrixXd conditioned_cross_covariance(
+      const Fit<GPFit<Solver, FitFeatureType>> &fit_,
+      const std::vector<MeasurementFeatureType> &measurements) const {
+    Eigen::MatrixXd cross = covariance_function_(
+        as_measurements(fit_.train_features), measurements);
+    const Eigen::Index n = details::predicted_size(fit_.train_covariance);
+    if (n > 0) {
+      const std::vector<FitFeatureType> predicted(
+          fit_.train_features.begin(), fit_.train_features.begin() + n);
+      cross.topRows(n) = covariance_function_(predicted, measurements);
+    }
+    return cross;
+  }
+
   /*
    * CRTP Helpers
    */
-- 
2.43.0


From 1d2ca2c3403240f27e5aa54f8a42b2160e204d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 16/50] fix: include the variance of the targets in the
 Gaussian process log likelihood

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 8fa170d..d1ec355 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -469,7 +469,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From f1ddf902c47e770a2f6258865fa69250f0275c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 17/50] fix: products and differences of block diagonal
 matrices with rectangular blocks

---
 include/albatross/src/linalg/block_diagonal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..0732c2d 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -257,18 +257,20 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockDiagonal::operator*(
     const Eigen::Matrix<_Scalar, _Rows, _Cols> &rhs) const {
   ALBATROSS_ASSERT(cols() == rhs.rows());
   Eigen::Index i = 0;
+  Eigen::Index j = 0;
   Eigen::Matrix<_Scalar, _Rows, _Cols> output =
       Eigen::Matrix<_Scalar, _Rows, _Cols>::Zero(rows(), rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const auto rhs_chunk = rhs.block(j, 0, b.cols(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b * rhs_chunk;
     i += b.rows();
+    j += b.cols();
   }
   return output;
 }
 
 inline BlockDiagonal BlockDiagonal::operator-(const BlockDiagonal &rhs) const {
-  ALBATROSS_ASSERT(cols() == rhs.rows());
+  ALBATROSS_ASSERT(rows() == rhs.rows() && cols() == rhs.cols());
   ALBATROSS_ASSERT(blocks.size() == rhs.blocks.size());
 
   BlockDiagonal output;
-- 
2.43.0


From 9eab32caa1a45be83d8196036f5dd607074e8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 18/50] fix: qualify apply in block_accumulate, std::apply was
 found instead

---
 include/albatross/src/linalg/block_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index 77fa09c..9f7d7d1 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -65,7 +65,7 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
     return apply_function(lhs.at(key), rhs.at(key));
   };
 
-  return block_sum(apply(lhs.keys(), one_group));
+  return block_sum(albatross::apply(lhs.keys(), one_group));
 }
 
 template <typename GroupKey, typename ApplyFunction>
-- 
2.43.0


From 58a3c5f58fe79957e9120d0170ede6dd769785f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 19/50] fix: get a map of joint predictions from cross
 validation

get<std::map<K, JointDistribution>> returned a Grouped object and get<Grouped<...>> a map, so neither compiled.
---
 include/albatross/src/evaluation/cross_validation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/cross_validation.hpp b/include/albatross/src/evaluation/cross_validation.hpp
index b0e6cbe..aeedbef 100644
--- a/include/albatross/src/evaluation/cross_validation.hpp
+++ b/include/albatross/src/evaluation/cross_validation.hpp
@@ -234,11 +234,11 @@ private:
   auto get(get_type<JointDistribution>) const { return this->joint(); }
 
   auto get(get_type<std::map<GroupKey, JointDistribution>>) const {
-    return this->joints();
+    return this->joints().get_map();
   }
 
   auto get(get_type<Grouped<GroupKey, JointDistribution>>) const {
-    return this->joints().get_map();
+    return this->joints();
   }
 
   const ModelType model_;
-- 
2.43.0


From 3de2a712ea5d42e8d2fbf6a51c4843cefa0a1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 20/50] fix: let group_indexer_from_folds accept folds

Its argument was a std::map from keys to features, from which dataset_size_from_folds could never be instantiated.
---
 include/albatross/src/evaluation/folds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/folds.hpp b/include/albatross/src/evaluation/folds.hpp
index 7c30949..26469af 100644
--- a/include/albatross/src/evaluation/folds.hpp
+++ b/include/albatross/src/evaluation/folds.hpp
@@ -80,7 +80,7 @@ folds_from_group_indexer(const RegressionDataset<FeatureType> &dataset,
  */
 template <typename GroupKey, typename FeatureType>
 inline GroupIndexer<GroupKey>
-group_indexer_from_folds(const std::map<GroupKey, FeatureType> &folds) {
+group_indexer_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
   GroupIndexer<GroupKey> output;
   for (const auto &fold : folds) {
     ALBATROSS_ASSERT(!map_contains(output, fold.first));
-- 
2.43.0


From 533d2069685f69e4c3edb058c411ddf5cf54553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 21/50] fix: compare the best iterations of two RANSAC outputs

operator== compared best with itself.
---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From edbe819e6f204858f0ffff8a1fd0a537e346c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 22/50] fix: serialize datasets of features with separate save
 and load

An output archive has no load functions and an input archive no save functions, so features such as doubles and strings were rejected.
---
 include/albatross/src/cereal/dataset.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/cereal/dataset.hpp b/include/albatross/src/cereal/dataset.hpp
index a76c829..4beec39 100644
--- a/include/albatross/src/cereal/dataset.hpp
+++ b/include/albatross/src/cereal/dataset.hpp
@@ -15,12 +15,14 @@
 
 using albatross::delay_static_assert;
 using albatross::RegressionDataset;
-using albatross::valid_in_out_serializer;
+using albatross::valid_input_serializer;
+using albatross::valid_output_serializer;
 
 namespace cereal {
 
 template <class Archive, class FeatureType>
-typename std::enable_if<valid_in_out_serializer<FeatureType, Archive>::value,
+typename std::enable_if<valid_input_serializer<FeatureType, Archive>::value ||
+                            valid_output_serializer<FeatureType, Archive>::value,
                         void>::type
 serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
           const std::uint32_t) {
@@ -30,8 +32,10 @@ serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
 }
 
 template <class Archive, class FeatureType>
-typename std::enable_if<!valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    !valid_input_serializer<FeatureType, Archive>::value &&
+        !valid_output_serializer<FeatureType, Archive>::value,
+    void>::type
 serialize(Archive &archive ALBATROSS_UNUSED, RegressionDataset<FeatureType> &,
           const std::uint32_t) {
   static_assert(delay_static_assert<Archive>::value,
-- 
2.43.0


From 8f07e6900af95a8081c55d3b0491e847ec11b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 23/50] fix: serialize all of the elements of a sparse matrix

Only sizeof(scalar) bytes of each triplet were written, with rows and columns exchanged.
---
 include/albatross/src/cereal/eigen.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..81c6b22 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,7 +169,7 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   std::vector<Eigen::Triplet<_Scalar>> elems;
   elems.reserve(nnz);
@@ -177,7 +177,7 @@ inline void save(Archive &ar,
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
                                       _StorageIndex>::InnerIterator it(m, col);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +207,7 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
-- 
2.43.0


From 9967c353b2675600870afe6b306be32222160adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 24/50] fix: restore all of the state of a serialized LDLT

The norm, sign and status of the decomposition were left as they were in the destination (or uninitialized), and one which had not been computed could not be written.
---
 .../src/cereal/serializable_ldlt.hpp          | 20 +++++++++++++--
 .../albatross/src/eigen/serializable_ldlt.hpp | 25 +++++++++++++++++++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..e209390 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -19,16 +19,32 @@ template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
                  const std::uint32_t) {
   save_lower_triangle(archive, ldlt.matrix());
-  archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
+  archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  if (ldlt.is_initialized()) {
+    const Eigen::VectorXd l1_norm = Eigen::VectorXd::Constant(1, ldlt.l1_norm());
+    archive(cereal::make_nvp("l1_norm", l1_norm),
+            cereal::make_nvp("success", ldlt.info() == Eigen::Success));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (ldlt.is_initialized()) {
+    // The norm can't be recovered from archives which don't contain it.
+    Eigen::VectorXd l1_norm =
+        Eigen::VectorXd::Constant(1, std::numeric_limits<double>::quiet_NaN());
+    bool success = true;
+    if (version > 0) {
+      archive(cereal::make_nvp("l1_norm", l1_norm),
+              cereal::make_nvp("success", success));
+    }
+    ldlt.restore_state(l1_norm[0], success);
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..0cad97a 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -22,6 +22,8 @@ public:
   using Scalar = double;
   using MatrixType = MatrixXd;
 
+  static const std::uint32_t serialization_version = 1;
+
   SerializableLDLT() : LDLT<MatrixXd, Lower>() {}
 
   SerializableLDLT(const MatrixXd &x) : LDLT<MatrixXd, Lower>(x.ldlt()) {}
@@ -39,6 +41,10 @@ public:
     return this->m_transpositions;
   }
 
+  const LDLT<MatrixXd, Lower>::TranspositionType &transpositions() const {
+    return this->m_transpositions;
+  }
+
   LDLT<MatrixXd, Lower>::MatrixType &mutable_matrix() { return this->m_matrix; }
 
   LDLT<MatrixXd, Lower>::MatrixType matrix() const { return this->m_matrix; }
@@ -52,6 +58,25 @@ public:
     return this->m_l1_norm;
   }
 
+  // Sets what the decomposition remembers about the matrix it was computed
+  // from, other than its factors.
+  void restore_state(double l1_norm, bool success) {
+    this->m_l1_norm = l1_norm;
+    this->m_info = success ? Success : NumericalIssue;
+    const auto diagonal = this->m_matrix.diagonal();
+    const bool has_positive = (diagonal.array() > 0.).any();
+    const bool has_negative = (diagonal.array() < 0.).any();
+    if (has_positive && has_negative) {
+      this->m_sign = internal::Indefinite;
+    } else if (has_positive) {
+      this->m_sign = internal::PositiveSemiDef;
+    } else if (has_negative) {
+      this->m_sign = internal::NegativeSemiDef;
+    } else {
+      this->m_sign = internal::ZeroSign;
+    }
+  }
+
   /*
    * Computes the inverse of the square root of the diagonal, D^{-1/2}
    */
-- 
2.43.0


From feb020dc4e0fea6d3642d6e56696188d882aed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 25/50] fix: serialize the numerical rank of a sparse Gaussian
 process fit

The version of the fit which includes it was never declared, so the rank was always read back as -1.
---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..3fcdf91 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -93,6 +93,9 @@ template <typename FeatureType> struct SparseGPFit {};
 template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   using PermutationIndices = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
 
+  // Archives contain the numerical rank since version 2.
+  static const std::uint32_t serialization_version = 2;
+
   std::vector<FeatureType> train_features;
   Eigen::SerializableLDLT train_covariance;
   Eigen::MatrixXd R;
-- 
2.43.0


From 0626ab2bf5937c6ef96d8efe496210c5daa742e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 26/50] fix: allocate both parts of complex sparse matrices
 when reading them

Space for the real elements alone was allocated, and overrun.
---
 include/albatross/src/cereal/suitesparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/cereal/suitesparse.hpp b/include/albatross/src/cereal/suitesparse.hpp
index ca44c9c..0b61905 100644
--- a/include/albatross/src/cereal/suitesparse.hpp
+++ b/include/albatross/src/cereal/suitesparse.hpp
@@ -437,7 +437,7 @@ inline void load(Archive &ar, cholmod_sparse &m,
   if (!m.packed) {
     detail::suitesparse_cereal_realloc(&m.nz, m.ncol, integer_size_bytes);
   }
-  detail::suitesparse_cereal_realloc(&m.x, m.nzmax, element_size_bytes);
+  detail::suitesparse_cereal_realloc(&m.x, x_elements, element_size_bytes);
 
   detail::decode_array(ar, "m.p", m.p, (m.ncol + 1) * p_size_bytes);
   detail::decode_array(ar, "m.i", m.i, m.nzmax * integer_size_bytes);
-- 
2.43.0


From 74a33fb0a234b1b6d94cb81839613098e4942125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 27/50] fix: use the solver an implementation of least squares
 brings

---
 include/albatross/src/models/least_squares.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index bb62fa4..d726cca 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -64,7 +64,8 @@ public:
       A.row(i) = features[cast::to_size(i)];
     }
 
-    FitType model_fit = {least_squares_solver(A, targets.mean)};
+    FitType model_fit = {
+        this->derived().least_squares_solver(A, targets.mean)};
     return model_fit;
   }
 
-- 
2.43.0


From d89d94af57fb60390d94cf16d8c352365cc80073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 28/50] fix: remove the mean from the targets of a sparse
 Gaussian process

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 3fcdf91..2cdeb8e 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -665,10 +665,10 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    *y = targets.mean;
 
     this->mean_function_.remove_from(
         subset(out_of_order_features, reordered_inds), &targets.mean);
+    *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
-- 
2.43.0


From 6a33c1241342e80249786ecca4471711d1beab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 29/50] fix: remove the mean from predictions a sparse Gaussian
 process is based on

---
 include/albatross/src/models/sparse_gp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 2cdeb8e..61dee97 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -423,6 +423,7 @@ public:
     // could be extremely small, so here we add a small nugget to avoid
     // numerical instability
     JointDistribution prediction(prediction_);
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
-- 
2.43.0


From 5e47d36402ced0831c229cbf8a67d9f8aa4d3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 30/50] fix: store the inducing point strategy that is set

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 61dee97..9631183 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -612,7 +612,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From cdda48597e0a9e02dbc8c7a984c4bdedbef3ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 31/50] fix: keep accepting maps of folds in
 group_indexer_from_folds

---
 include/albatross/src/evaluation/folds.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/folds.hpp b/include/albatross/src/evaluation/folds.hpp
index 26469af..6b50e07 100644
--- a/include/albatross/src/evaluation/folds.hpp
+++ b/include/albatross/src/evaluation/folds.hpp
@@ -80,7 +80,7 @@ folds_from_group_indexer(const RegressionDataset<FeatureType> &dataset,
  */
 template <typename GroupKey, typename FeatureType>
 inline GroupIndexer<GroupKey>
-group_indexer_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
+group_indexer_from_folds(const std::map<GroupKey, FeatureType> &folds) {
   GroupIndexer<GroupKey> output;
   for (const auto &fold : folds) {
     ALBATROSS_ASSERT(!map_contains(output, fold.first));
@@ -89,6 +89,12 @@ group_indexer_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
   return output;
 }
 
+template <typename GroupKey, typename FeatureType>
+inline GroupIndexer<GroupKey>
+group_indexer_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
+  return group_indexer_from_folds(folds.get_map());
+}
+
 template <typename FeatureType, typename GrouperFunction>
 inline auto folds_from_grouper(const RegressionDataset<FeatureType> &dataset,
                                GrouperFunction grouper) {
-- 
2.43.0


From 3cff11e001cd8065b0d51ad1b856447ef0b02a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 32/50] fix: keep sampled parameters within their bounds

---
 include/albatross/src/samplers/ensemble.hpp       | 12 +++++++++++-
 include/albatross/src/samplers/initialization.hpp | 12 +++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 6cbded4..ffc4453 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -175,7 +175,17 @@ std::vector<EnsembleSamplerState> ensemble_sampler(
   const auto initial_params =
       initial_params_from_jitter(model.get_params(), jitter, gen, n_walkers);
 
-  auto compute_ll = [&](const std::vector<double> &param_values) {
+  const TunableParameters tunable =
+      get_tunable_parameters(model.get_params());
+
+  auto compute_ll = [&](const std::vector<double> &param_values) -> double {
+    // There is no probability outside of the bounds.
+    for (std::size_t i = 0; i < param_values.size(); ++i) {
+      if (!(param_values[i] >= tunable.lower_bounds[i] &&
+            param_values[i] <= tunable.upper_bounds[i])) {
+        return -HUGE_VAL;
+      }
+    }
     ModelType m(model);
     m.set_tunable_params_values(param_values);
     return m.log_likelihood(dataset);
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 5eeb0b9..27d7f94 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -105,13 +105,15 @@ initial_params_from_jitter(const ParameterStore &params,
   n = std::max(n, 2 * params.size() + 1);
 
   std::vector<std::vector<double>> output;
-  std::vector<double> double_params = get_tunable_parameters(params).values;
-  output.push_back(double_params);
+  const TunableParameters tunable = get_tunable_parameters(params);
+  output.push_back(tunable.values);
   for (std::size_t i = 0; i < n - 1; ++i) {
 
-    std::vector<double> perturbed(double_params);
-    for (auto &d : perturbed) {
-      d += jitter_distribution(gen);
+    std::vector<double> perturbed(tunable.values);
+    for (std::size_t j = 0; j < perturbed.size(); ++j) {
+      perturbed[j] += jitter_distribution(gen);
+      perturbed[j] = std::max(perturbed[j], tunable.lower_bounds[j]);
+      perturbed[j] = std::min(perturbed[j], tunable.upper_bounds[j]);
     };
 
     output.push_back(perturbed);
-- 
2.43.0


From a803b7cc3c59fc295c11a0751a862dc8da736fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 33/50] fix: write CSV rows to streams which can not seek

---
 include/albatross/src/utils/csv_utils.hpp | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..e1ec459 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -162,16 +162,6 @@ to_map(const RegressionDataset<FeatureType> &dataset,
   return row;
 }
 
-/*
- * This helper function makes it easier to use range based
- * for loops that append a delimeter which can be followed
- * by this function to turn the last delimeter into a new line
- */
-inline void replace_last_character_with_newline(std::ostream &stream) {
-  stream.seekp(-1, std::ios_base::end);
-  stream << std::endl;
-}
-
 template <typename FeatureType, typename DistributionType>
 inline std::vector<std::string>
 get_column_names(const RegressionDataset<FeatureType> &dataset,
@@ -187,21 +177,30 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
+  bool first = true;
   for (const auto &col : columns) {
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
     if (map_contains(row, col)) {
       stream << row.at(col);
     }
-    stream << ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
+  bool first = true;
   for (const auto &col : columns) {
-    stream << col << ",";
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
+    stream << col;
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From 58e43bbf9757cb85a9132d03461c814b285a5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 34/50] fix: quote CSV values which contain separators

---
 include/albatross/src/utils/csv_utils.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index e1ec459..7e3b676 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -174,6 +174,24 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
   return std::vector<std::string>(keys.begin(), keys.end());
 }
 
+/*
+ * Values which contain a separator need to be quoted, otherwise they
+ * would end up in several columns or rows.
+ */
+inline std::string escape_csv_value(const std::string &value) {
+  if (value.find_first_of(",\"\r\n") == std::string::npos) {
+    return value;
+  }
+  std::string escaped = "\"";
+  for (const char c : value) {
+    if (c == '"') {
+      escaped += '"';
+    }
+    escaped += c;
+  }
+  return escaped + "\"";
+}
+
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
@@ -184,7 +202,7 @@ inline void write_row(std::ostream &stream,
     }
     first = false;
     if (map_contains(row, col)) {
-      stream << row.at(col);
+      stream << escape_csv_value(row.at(col));
     }
   }
   stream << std::endl;
@@ -198,7 +216,7 @@ inline void write_header(std::ostream &stream,
       stream << ",";
     }
     first = false;
-    stream << col;
+    stream << escape_csv_value(col);
   }
   stream << std::endl;
 }
-- 
2.43.0


From 78941a6cc3e8c53d017eed7d494f538e98a1db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 35/50] fix: write the columns of every dataset

---
 include/albatross/src/utils/csv_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 7e3b676..273cb70 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -263,9 +263,14 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto next_keys = get_column_names(datasets[i], predictions[i]);
+    keys.insert(next_keys.begin(), next_keys.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From 2506c6d14ab363c3fbcc565abc45dd83f0d5ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 36/50] fix: keep the incomplete gamma function between zero
 and one

---
 include/albatross/src/stats/incomplete_gamma.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/stats/incomplete_gamma.hpp b/include/albatross/src/stats/incomplete_gamma.hpp
index 861a3a3..6d9c919 100644
--- a/include/albatross/src/stats/incomplete_gamma.hpp
+++ b/include/albatross/src/stats/incomplete_gamma.hpp
@@ -84,8 +84,9 @@ inline std::pair<double, double> incomplete_gamma_quadrature_bounds(double a,
 
 inline double incomplete_gamma_quadrature(double a, double z) {
   const auto bounds = incomplete_gamma_quadrature_bounds(a, z);
-  return incomplete_gamma_quadrature_recursive(bounds.first, bounds.second, a,
-                                               lgamma(a), 0);
+  // Round off can push the integral slightly above one.
+  return std::min(1., incomplete_gamma_quadrature_recursive(
+                          bounds.first, bounds.second, a, lgamma(a), 0));
 }
 
 inline double
@@ -148,6 +149,10 @@ inline double incomplete_gamma(double a, double z) {
     return 1.;
   }
 
+  if (std::isinf(z)) {
+    return 1.;
+  }
+
   if (a < 10) {
     return details::incomplete_gamma_continuous_fraction(a, z);
   } else {
-- 
2.43.0


From ddda03e676a1a64f693dbeceb4c9759a9f1ca16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 37/50] fix: count the log determinant once in the differential
 entropy

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From 8b66c3bec8de0b0e895204215b75229c05f5e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 38/50] fix: compute variogram scores of more than two
 dimensions

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..8fc2693 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -490,7 +490,8 @@ inline double variogram_score(
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.row(row).tail(rest).transpose().array())
+            .max(0.)
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -499,8 +500,8 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
+    sum += (weight_matrix.row(row).tail(rest).transpose().array() *
+            diff.array() * diff.array())
                .sum();
   }
 
-- 
2.43.0


From 0723d9b0ae61022acad6047b5cc80abf7db33e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 39/50] fix: weigh both terms of the energy score alike

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 8fc2693..5ac0dc4 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -248,10 +248,10 @@ inline double pairwise_errors_paired(const Eigen::MatrixXd &samples_a,
                    "Sample matrices must be the same size!");
   ALBATROSS_ASSERT(samples_a.cols() == samples_b.cols() &&
                    "Sample matrices must be the same size!");
-  return ((samples_a - samples_b).array().colwise() * weights.array())
-      .matrix()
+  return ((samples_a - samples_b).array().square().colwise() * weights.array())
       .colwise()
-      .norm()
+      .sum()
+      .sqrt()
       .mean();
 }
 
-- 
2.43.0


From df24e3e2449a389c2582e4c9cf7897da1224e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 40/50] fix: undo the pivoting when drawing from a multivariate
 normal

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5ac0dc4..67440ab 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From e6b9fcf28fb90aaa42da6debb52de5cecd4a5e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 41/50] fix: compute the Wasserstein distance of singular
 covariances

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 67440ab..5425aa8 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -165,8 +165,14 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
             .select(eigenvalues.array(),
                     std::numeric_limits<double>::infinity())
             .minCoeff();
+    // The eigenvalues of a singular argument are only known up to rounding of
+    // the largest one.
+    const double rounding = cast::to_double(input.rows()) *
+                            std::numeric_limits<double>::epsilon() *
+                            eigenvalues.array().abs().maxCoeff();
+    const double tolerance = 10 * std::max(min_positive, rounding);
     eigenvalues =
-        (eigenvalues.array() < 0 && eigenvalues.array() > -10 * min_positive)
+        (eigenvalues.array() < 0 && eigenvalues.array() > -tolerance)
             .select(0, eigenvalues.array());
   }
 
-- 
2.43.0


From e37f211971864c9b3466884a37e808b454fb8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 42/50] fix: do not overflow in the CRPS of a very certain
 prediction

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5425aa8..191e72e 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -366,7 +366,8 @@ inline double crps_normal(double mu, double sigma, double y) {
   const double erfz = std::erf(z / std::sqrt(2.0));
   const double phi = std::exp(-0.5 * z * z) / std::sqrt(2. * M_PI);
 
-  return sigma * (z * erfz + 2.0 * phi - 1.0 / std::sqrt(M_PI));
+  // z may overflow when sigma is tiny
+  return (y - mu) * erfz + sigma * (2.0 * phi - 1.0 / std::sqrt(M_PI));
 }
 
 // Compute the energy score of the `truth` data under the `prediction`
-- 
2.43.0


From 663a0cc547e09db62d7fa1e4daa31e9bb6a3738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 43/50] fix: step backwards for the gradient at an upper bound

---
 include/albatross/src/tune/finite_difference.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..bef7af9 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,11 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
+      // Stepping over the bound would be undone, step backwards instead.
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From 88dab5745b95249b87db9f6a078c278134ee2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 44/50] fix: keep the only greedy query between the value and
 the bound

---
 include/albatross/src/tune/greedy_tuner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/greedy_tuner.hpp b/include/albatross/src/tune/greedy_tuner.hpp
index d35f752..0ee9cfd 100644
--- a/include/albatross/src/tune/greedy_tuner.hpp
+++ b/include/albatross/src/tune/greedy_tuner.hpp
@@ -38,7 +38,7 @@ inline std::vector<double> query_ratios(std::size_t n) {
   const double log_min = -5.;
   const double log_max = -0.1;
   if (n == 1) {
-    return {log_min};
+    return {std::pow(10, log_min)};
   }
 
   const double step = (log_max - log_min) / (cast::to_double(n) - 1);
-- 
2.43.0


From 81d8345167c1a28df7d6556fa37240f65e54b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 45/50] fix: keep the order of more than ten initial values
 when tuning

---
 include/albatross/src/tune/tune.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 1135cae..d21ab9b 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -82,8 +82,14 @@ inline nlopt::opt default_gradient_optimizer(
 
 inline ParameterStore uninformative_params(const std::vector<double> &values) {
   ParameterStore params;
+  // Parameters are ordered by name, pad the numbers so that the names keep the
+  // order of the values.
+  const std::size_t width =
+      values.empty() ? 0 : std::to_string(values.size() - 1).size();
   for (std::size_t i = 0; i < values.size(); ++i) {
-    params[std::to_string(i)] = {values[i], UninformativePrior()};
+    std::string name = std::to_string(i);
+    name.insert(0, width - name.size(), '0');
+    params[name] = {values[i], UninformativePrior()};
   }
   return params;
 }
-- 
2.43.0


From b2c5cc54e024ff5ad3f6d987fd20f39a545fcb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 46/50] fix: remove the mean of the measurements, not of the
 latent features, in sparse GP fits

---
 include/albatross/src/models/sparse_gp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 9631183..e828ec8 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -667,8 +667,7 @@ private:
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
 
-    this->mean_function_.remove_from(
-        subset(out_of_order_features, reordered_inds), &targets.mean);
+    this->mean_function_.remove_from(features, &targets.mean);
     *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
-- 
2.43.0


From 9aeaedeec94f2f0e6eae10e134d867908a7dba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 47/50] fix: keep the fit of a temporary in predictions with
 measurement noise

---
 include/albatross/src/core/fit_model.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..23f0e37 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -53,7 +53,7 @@ public:
 
   template <typename PredictFeatureType>
   auto predict_with_measurement_noise(
-      const std::vector<PredictFeatureType> &features) const {
+      const std::vector<PredictFeatureType> &features) const & {
     std::vector<Measurement<PredictFeatureType>> measurements;
     for (const auto &f : features) {
       measurements.emplace_back(Measurement<PredictFeatureType>(f));
@@ -61,6 +61,17 @@ public:
     return predict(measurements);
   }
 
+  // As with predict, the fit of an rvalue is moved into the prediction.
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<PredictFeatureType> &features) && {
+    std::vector<Measurement<PredictFeatureType>> measurements;
+    for (const auto &f : features) {
+      measurements.emplace_back(Measurement<PredictFeatureType>(f));
+    }
+    return std::move(*this).predict(measurements);
+  }
+
   template <
       typename FeatureType,
       typename std::enable_if<
-- 
2.43.0


From b913fb52bcc70e7d502ab17a464688e296bcfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 48/50] fix: reject covariances that are not square in joint
 distributions

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 5a95804..4ef1b9b 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -168,7 +168,7 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   JointDistribution(const Eigen::VectorXd &mean_,
                     const Eigen::MatrixXd &covariance_)
       : Base(mean_), covariance(covariance_) {
-    ALBATROSS_ASSERT(mean_.size() == covariance_.rows());
+    assert_valid();
   }
 
   void assert_valid() const {
-- 
2.43.0


From 869d04a9de49e5c6ed647d735698fc0234074961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:05 +0000
Subject: [PATCH 49/50] fix: expected absolute value of normals narrower than
 1e-16

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 191e72e..c5ba1b4 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -300,7 +300,8 @@ inline double expected_abs_normal_1(double mu, double sigma) {
     return std::abs(mu);
   }
 
-  const double normalized = std::fabs(mu) / std::max(1.0e-16, sigma);
+  // This may overflow when sigma is tiny
+  const double normalized = std::fabs(mu) / sigma;
   return sigma * std::sqrt(2. / M_PI) *
              std::exp(-0.5 * normalized * normalized) +
          std::fabs(mu) * std::erf(normalized / std::sqrt(2.));
-- 
2.43.0


From 033b8a6a679f0398ba63de33fe9f78f40b1e4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 50/50] fix: initial parameters from a CSV whose names aren't
 the parameters'

---
 include/albatross/src/samplers/initialization.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 27d7f94..2d44f02 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -86,8 +86,9 @@ initial_params_from_csv(const ParameterStore &param_store, std::istream &ss) {
     ALBATROSS_ASSERT(value_map.size() == param_store.size());
     ParameterStore params(param_store);
     for (const auto &value_pair : value_map) {
-      params[value_pair.first].value = ensure_value_within_bounds(
-          params[value_pair.first], value_pair.second);
+      // A name which isn't a parameter would otherwise be added as a new one.
+      Parameter &param = params.at(value_pair.first);
+      param.value = ensure_value_within_bounds(param, value_pair.second);
     }
 
     output.emplace_back(get_tunable_parameters(params).values);
-- 
2.43.0


From 40e83e43925f97b7e12b2aeae9d5a598a65ea94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 1/9] fix: compare squared distance with squared radius in
 CylinderX::Contains

---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From fcc9f242311feeee8095a04f907517af285f8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 2/9] fix: let nested ContinuousMap lookups return the
 interpolated value

at() was declared to return T, so a table of tables could not be looked up
with all of its keys (the template did not compile when instantiated).
---
 src/ContinuousMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ContinuousMap.hpp b/src/ContinuousMap.hpp
index 3c8beaf..7fe5526 100644
--- a/src/ContinuousMap.hpp
+++ b/src/ContinuousMap.hpp
@@ -18,7 +18,7 @@ public:
   /// @tparam Args Type of inner keys
   /// @todo Support other interpolation methods
   template <typename... Args>
-  T at(const Key k, Args... inner_keys) const noexcept {
+  auto at(const Key k, Args... inner_keys) const noexcept {
     const auto it_hi = elements.upper_bound(k);
     if constexpr (sizeof...(Args) == 0){
       // base case
-- 
2.43.0


From ff068eb61360e4b5cb9eaba831e7644d6440d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 3/9] fix: put values without logarithm into the first
 logarithmic bin

---
 src/Bins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..c5bf60b 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -111,7 +111,8 @@ size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
   const auto log_v = std::log(v) / std::log(base);
-  if (log_v < log_lower_bound) {
+  // negative values have no logarithm and are below all boundaries
+  if (v < 0 || log_v < log_lower_bound) {
     return 0;
   }
   else if (log_v >= log_upper_bound) {
-- 
2.43.0


From f78222115340df02c72cf7f5b6b05ab78697b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 4/9] fix: nudge across a surface exceeds the rounding error of
 coordinates

With ten epsilon a particle could be left exactly on the plane it should
cross. Its old cell then reports no further intersection and the particle
flies out of that cell unnoticed (C05).
---
 src/Constants.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Constants.hpp b/src/Constants.hpp
index 93a7ada..b616a82 100644
--- a/src/Constants.hpp
+++ b/src/Constants.hpp
@@ -12,7 +12,10 @@ namespace constants {
 ///          C++20 Mathematical Constants</a>
 constexpr Real pi = M_PI;
 /// @brief Additional distance to stream Particle to cross CSGSurface properly
-constexpr Real nudge = 10 * std::numeric_limits<Real>::epsilon();
+/// @details Must be well above the rounding error of a coordinate. Otherwise a
+///          Particle can end up exactly on the CSGSurface it should cross,
+///          where it finds no more intersection and leaves its Cell unnoticed.
+constexpr Real nudge = 1e-8;
 /// @brief Used to determine whether a Direction is too close to an axis. A
 ///        value of 0 means all directions are too close to the axis. A value
 ///        of 1 means any direction is far away enough from the axis. Must be
-- 
2.43.0


From 3abc3fe4fe1aaec71d10c76983673f70111bc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:22 +0000
Subject: [PATCH 5/9] fix: delta tracking evaluates the acceptance ratio at the
 collision site

The ratio of total to majorant was taken at the start of the flight, where
the temperature differs from the one at the tentative collision site (C06).
---
 src/TransportMethod.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..a70549e 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -103,18 +103,20 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // the ratio of cross sections applies at the tentative collision site
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 7e3b399ee780458f2c8a64cf792bbb639ff24d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 6/9] fix: thermal cross section at or above the highest
 tabulated temperature

---
 src/ThermalScattering.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..406c1a4 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -150,9 +150,8 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   // Linear interpolation in temperature
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
-  const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
-                                 : (T - T_lo) / (T_hi - T_lo);
+  const auto r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
 
-- 
2.43.0


From 1650b2c4e84008cdccfebc62313f73d96a77fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 7/9] fix: thermal scattering data outside the tabulated
 temperatures

---
 src/ThermalScattering.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 406c1a4..815d542 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -208,8 +208,9 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_beta =
-      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_beta = beta_T_lo + r_T * (beta_T_hi - beta_T_lo);
   return sampled_beta;
 }
 
@@ -249,8 +250,9 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_alpha =
-      alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_alpha = alpha_T_lo + r_T * (alpha_T_hi - alpha_T_lo);
   return sampled_alpha;
 }
 
-- 
2.43.0


From 8959d0d425b8b6cbb5f786000023d0a3dce02f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 8/9] fix: interpolation factor between beta grids

---
 src/ThermalScattering.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 815d542..a58c692 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -362,8 +362,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From 639e57d9753728c5ace57b96f4703f583ec9c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 9/9] fix: beta outside of the range of beta grids

---
 src/ThermalScattering.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index a58c692..4cd041a 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -349,15 +349,18 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const size_t b_hi_i = std::distance(
       betas.cbegin(), std::upper_bound(betas.cbegin(), betas.cend(), abs_b));
 
+  // Handle case where abs_b is less than the smallest beta provided, b_min
+  const bool snap_to_min = b_hi_i == 0;
   // For any given abs_b, we have two beta grids to choose from:
   // b_lo <= abs_b < b_hi
+  // If there is no b_hi, we force the use of b_lo
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
   const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+      !snap_to_min &&
+      (b_hi_i == betas.size() ||
+       (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
        (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
-  // Handle case where abs_b is less than the smallest beta provided, b_min
-  const bool snap_to_min = b_hi_i == 0;
   // Determine interpolation factor and sample a beta grid to use, b_s
   const Real r = snap_to_lower ? 0
                  : snap_to_min
@@ -366,7 +369,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
                            (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
-  Beta b_s = sgn_b * betas.at(b_s_i);
+  // b_min itself may be out of reach at this energy, so its grid is used at b
+  const Beta b_s = snap_to_min ? b : sgn_b * betas.at(b_s_i);
 
   // compute minimum and maximum possible value of alpha
   const auto sqrt_E = std::sqrt(E);
-- 
2.43.0


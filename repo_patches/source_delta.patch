From bec602e042eaaf463b0eb5ab74539e1ec1da913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 01/83] fix: join the threads already launched when the system
 refuses another one

A failing std::thread constructor left joinable threads behind, whose
destructor terminated the process. An unknown number of processors (0) led to
a division by zero.
---
 .../core/include/pyinterp/detail/thread.hpp   | 60 ++++++++++++++++---
 src/pyinterp/core/include/pyinterp/fill.hpp   | 20 +++----
 2 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..113ad3d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,11 +3,57 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <algorithm>
+#include <cstddef>
 #include <thread>
+#include <utility>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Number of threads to use when the caller lets the library choose.
+///
+/// @return The number of concurrent threads supported by the hardware, or 1 if
+/// it's unknown.
+inline auto default_num_threads() -> size_t {
+  return std::max<size_t>(std::thread::hardware_concurrency(), 1);
+}
+
+/// Group of threads joined when the object is destroyed, in particular if the
+/// system refuses to create all the requested threads.
+class ThreadGroup {
+ public:
+  /// Default constructor
+  ///
+  /// @param num_threads The number of threads that will be launched
+  explicit ThreadGroup(const size_t num_threads) {
+    threads_.reserve(num_threads);
+  }
+
+  ThreadGroup(const ThreadGroup &) = delete;
+  auto operator=(const ThreadGroup &) -> ThreadGroup & = delete;
+
+  /// Destructor
+  ~ThreadGroup() { join(); }
+
+  /// Launches a new thread
+  template <typename... Args>
+  void launch(Args &&...args) {
+    threads_.emplace_back(std::forward<Args>(args)...);
+  }
+
+  /// Waits for the end of all the threads launched
+  void join() {
+    for (auto &&item : threads_) {
+      item.join();
+    }
+    threads_.clear();
+  }
+
+ private:
+  std::vector<std::thread> threads_{};
+};
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
@@ -24,26 +70,24 @@ void dispatch(const Lambda &worker, size_t size, size_t num_threads) {
   }
 
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads = default_num_threads();
   }
 
   // List of threads responsible for parallelizing the calculation
-  std::vector<std::thread> threads(num_threads);
+  auto threads = ThreadGroup(num_threads);
 
   // Access index to the vectors required for calculation
   size_t start = 0;
   size_t shift = size / num_threads;
 
   // Launch and join threads
-  for (auto it = std::begin(threads); it != std::end(threads) - 1; ++it) {
-    *it = std::thread(worker, start, start + shift);
+  for (size_t index = 0; index < num_threads - 1; ++index) {
+    threads.launch(worker, start, start + shift);
     start += shift;
   }
-  threads.back() = std::thread(worker, start, size);
+  threads.launch(worker, start, size);
 
-  for (auto &&item : threads) {
-    item.join();
-  }
+  threads.join();
 }
 
 }  // namespace pyinterp::detail
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..bbebae1 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -174,22 +174,20 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
     int64_t start = 0;
     int64_t shift = y_size / num_threads;
 
-    // Handled threads
-    std::vector<std::thread> threads;
-
     // Maximum residual values for each thread.
     std::vector<Type> max_residuals(num_threads);
 
+    // Handled threads
+    auto threads = detail::ThreadGroup(num_threads);
+
     for (size_t index = 0; index < num_threads - 1; ++index) {
-      threads.emplace_back(std::thread(worker, start, start + shift, red_black,
-                                       &max_residuals[index]));
+      threads.launch(worker, start, start + shift, red_black,
+                     &max_residuals[index]);
       start += shift;
     }
-    threads.emplace_back(std::thread(worker, start, y_size, red_black,
-                                     &max_residuals[num_threads - 1]));
-    for (auto &&item : threads) {
-      item.join();
-    }
+    threads.launch(worker, start, y_size, red_black,
+                   &max_residuals[num_threads - 1]);
+    threads.join();
     if (except != nullptr) {
       std::rethrow_exception(except);
     }
@@ -307,7 +305,7 @@ auto gauss_seidel(pybind11::EigenDRef<Matrix<Type>> &grid,
 
   /// Calculation of the maximum number of threads if the user chooses.
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads = detail::default_num_threads();
   }
 
   /// Calculation of the position of the undefined values on the grid.
-- 
2.43.0


From 873b80fe4d7b2eab374b2302502a74a467ff6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 02/83] fix: serialize the storage of the exceptions caught by
 concurrent workers

Several workers failing at the same time assigned the same
std::exception_ptr without synchronization (data race on its reference
count).
---
 .../core/include/pyinterp/bivariate.hpp       |  2 +-
 .../core/include/pyinterp/detail/thread.hpp   | 30 +++++++++++++++++++
 src/pyinterp/core/include/pyinterp/fill.hpp   | 10 +++----
 .../include/pyinterp/geodetic/algorithm.hpp   |  4 +--
 .../include/pyinterp/geodetic/coordinates.hpp |  6 ++--
 .../core/include/pyinterp/quadrivariate.hpp   |  2 +-
 src/pyinterp/core/include/pyinterp/rtree.hpp  | 12 ++++----
 .../core/include/pyinterp/trivariate.hpp      |  2 +-
 .../core/lib/geodetic/line_string.cpp         |  2 +-
 src/pyinterp/core/lib/geodetic/rtree.cpp      |  8 ++---
 src/pyinterp/core/lib/geohash/string.cpp      |  2 +-
 src/pyinterp/core/module/bicubic.cpp          |  6 ++--
 12 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..81ede2c 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -129,7 +129,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 113ad3d..d61adf1 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -5,12 +5,42 @@
 #pragma once
 #include <algorithm>
 #include <cstddef>
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Holds the exception captured by threads running concurrently (only the last
+/// exception captured is kept)
+class SharedException {
+ public:
+  /// Default constructor
+  SharedException() = default;
+
+  /// Stores the exception captured by a thread.
+  auto operator=(std::exception_ptr except) -> SharedException & {
+    auto lock = std::lock_guard<std::mutex>(mutex_);
+    except_ = std::move(except);
+    return *this;
+  }
+
+  /// Returns true if an exception has been captured. Like the conversion below,
+  /// must be called when no thread is using this object.
+  auto operator!=(std::nullptr_t) const noexcept -> bool {
+    return except_ != nullptr;
+  }
+
+  /// Gets the exception captured.
+  operator const std::exception_ptr &() const noexcept { return except_; }
+
+ private:
+  std::mutex mutex_{};
+  std::exception_ptr except_{nullptr};
+};
+
 /// Number of threads to use when the caller lets the library choose.
 ///
 /// @return The number of concurrent threads supported by the hardware, or 1 if
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index bbebae1..ac2cc60 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -39,7 +39,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
                        Matrix<bool> &mask, const size_t num_threads) {
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   detail::dispatch(
       [&](size_t y_start, size_t y_end) {
@@ -96,7 +96,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   // Thread worker responsible for processing red or black cells.
   //
@@ -416,7 +416,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -572,7 +572,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -628,7 +628,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..c8ab479 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -83,7 +83,7 @@ template <typename Geometry1, typename Geometry2>
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -158,7 +158,7 @@ template <typename Geometry, typename Strategy>
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..11579d9 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -50,7 +50,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -97,7 +97,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -145,7 +145,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..02bb5a4 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -148,7 +148,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..35cc27a 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -546,7 +546,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -612,7 +612,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -694,7 +694,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -755,7 +755,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -813,7 +813,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -871,7 +871,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..38adc74 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -105,7 +105,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..c445221 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -224,7 +224,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   if (wgs.has_value()) {
     auto worker = [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..23b061e 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -107,7 +107,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -167,7 +167,7 @@ auto RTree::inverse_distance_weighting(
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -225,7 +225,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -276,7 +276,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..4e29a45 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -233,7 +233,7 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   detail::dispatch(
       [&](size_t start, size_t end) {
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..6b6a3ab 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -58,7 +58,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
@@ -118,7 +118,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
@@ -185,7 +185,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
-- 
2.43.0


From a3d08c3a37334097e28cb1b1812c17b689f5dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 03/83] fix: report the errors raised by the threads computing
 the geohash boxes

Nothing caught an exception raised in a worker of mask_cell, which terminated
the process.
---
 src/pyinterp/core/lib/geohash/string.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 4e29a45..b5ff5b3 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -237,17 +237,21 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   detail::dispatch(
       [&](size_t start, size_t end) {
-        for (auto lat = static_cast<int64_t>(start);
-             lat < static_cast<int64_t>(end); ++lat) {
-          auto point = geodetic::Point(
-              0, point_sw.lat() + static_cast<double>(lat) * lat_err);
-
-          for (size_t lon = 0; lon < lon_step; ++lon) {
-            point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
-            result(lon, lat) = boost::geometry::intersects(
-                int64::bounding_box(int64::encode(point, bits), bits),
-                geometry);
+        try {
+          for (auto lat = static_cast<int64_t>(start);
+               lat < static_cast<int64_t>(end); ++lat) {
+            auto point = geodetic::Point(
+                0, point_sw.lat() + static_cast<double>(lat) * lat_err);
+
+            for (size_t lon = 0; lon < lon_step; ++lon) {
+              point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+              result(lon, lat) = boost::geometry::intersects(
+                  int64::bounding_box(int64::encode(point, bits), bits),
+                  geometry);
+            }
           }
+        } catch (...) {
+          except = std::current_exception();
         }
       },
       lat_step, num_threads);
-- 
2.43.0


From f6fc4242fafe37914b2189a9d9267b17cbd4332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 04/83] fix: raise the errors caught by the threads of the
 LOESS filter

The exceptions captured by the workers were never rethrown: the caller got an
array partially uninitialized.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index ac2cc60..14b922a 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -502,6 +502,10 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.x()->size(), num_threads);
+
+    if (except != nullptr) {
+      std::rethrow_exception(except);
+    }
   }
   return result;
 }
@@ -613,6 +617,10 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.z()->size(), num_threads);
+
+    if (except != nullptr) {
+      std::rethrow_exception(except);
+    }
   }
   return result;
 }
@@ -672,6 +680,10 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.u()->size(), num_threads);
+
+    if (except != nullptr) {
+      std::rethrow_exception(except);
+    }
   }
   return result;
 }
-- 
2.43.0


From f7e0a116b9c303b9f6638a5abcbb7137cb4204f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 05/83] fix: do not read past the last period when searching
 dates in a list of periods

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..6fbf101 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -326,7 +326,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From cc7c6972fa846e8c26595b2b3e581af2cf2d17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 06/83] fix: accept an empty vector of dates in
 PeriodList::cross_a_period

---
 src/pyinterp/core/include/pyinterp/period.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 6fbf101..0f1035f 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -254,6 +254,9 @@ class PeriodList {
     // Flag equal to 1 if the date belongs to a period, 0 otherwise.
     auto flags = Eigen::Matrix<bool, -1, 1>(dates.size());
     flags.setConstant(false);
+    if (dates.size() == 0) {
+      return flags;
+    }
 
     // Index of the traversed date.
     auto ix = int64_t(0);
-- 
2.43.0


From 6ceb0f541f334363ad78dd74cd4cc587aa9738cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 07/83] fix: restore the points when an RTree is unpickled

---
 src/pyinterp/rtree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e22143c..410221a 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -488,5 +488,6 @@ class RTree:
             raise ValueError('invalid state')
         _class = RTree(None, state[0])
         self.dtype = _class.dtype
-        _class._instance.__setstate__(state[1])
-        self._instance = _class._instance
+        _type = type(_class._instance)
+        self._instance = _type.__new__(_type)
+        self._instance.__setstate__(state[1])
-- 
2.43.0


From 2551e04a3e15c5c926e3779751932f73ebae4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 08/83] fix: unpickle the trees that handle ECEF coordinates

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 35cc27a..07b2092 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -397,7 +397,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       }
       vector.emplace_back(std::make_pair(point, _u(ix)));
     }
-    auto result = RTree<Point, Type>(spheroid, ecef);
+    auto result = RTree<Point, Type>(
+        ecef ? std::optional<detail::geodetic::Spheroid>() : spheroid, ecef);
     static_cast<base_t>(result).packing(vector);
     return result;
   }
-- 
2.43.0


From 82512944bec505c2f3be747a10f78547cae968f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 09/83] fix: keep the polar radius in the state of the geodetic
 RTree

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 23b061e..b80ac3f 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -319,7 +319,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                 });
   const auto &model = strategy_.model();
   auto a = model.template get_radius<0>();
-  auto b = model.template get_radius<1>();
+  auto b = model.template get_radius<2>();
   return pybind11::make_tuple(a, b, coordinates, data);
 }
 
-- 
2.43.0


From 80d46c48f8a4848500a1023788f6cca72adf8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 10/83] fix: keep the angle property of an axis that does not
 cover the circle when it is pickled

---
 src/pyinterp/core/include/pyinterp/axis.hpp        | 13 +++++++++----
 src/pyinterp/core/include/pyinterp/detail/axis.hpp |  8 +++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index b846c03..e539279 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,7 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Irregular
@@ -217,7 +217,7 @@ class Axis : public detail::Axis<T>,
           _values[ix] = ptr->coordinate_value(ix);
         }
         return pybind11::make_tuple(detail::axis::IRREGULAR, values,
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Undefined
@@ -236,6 +236,11 @@ class Axis : public detail::Axis<T>,
       throw std::invalid_argument("invalid state");
     }
     auto identification = state[0].cast<int64_t>();
+    // States registered by the previous versions end with the "circle" flag.
+    auto is_angle = [&state](const size_t is_circle) -> bool {
+      return state[state.size() > is_circle + 1 ? is_circle + 1 : is_circle]
+          .template cast<bool>();
+    };
     switch (identification) {
       case detail::axis::UNDEFINED:
         return Axis();
@@ -246,14 +251,14 @@ class Axis : public detail::Axis<T>,
             std::unique_ptr<detail::axis::container::Abstract<T>>(
                 new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
                     ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>());
+            state[2].cast<bool>(), is_angle(2));
       }
       case detail::axis::REGULAR:
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         new detail::axis::container::Regular<T>(
                             state[1].cast<T>(), state[2].cast<T>(),
                             state[3].cast<T>())),
-                    state[4].cast<bool>());
+                    state[4].cast<bool>(), is_angle(4));
       default:
         throw std::invalid_argument("invalid state");
     }
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..451399d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -462,10 +462,12 @@ class Axis {
   /// Construction of a serialized instance.
   ///
   /// @param axis Axis handler
-  /// @param is_circle True, if the axis can represent a circle.
-  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle)
+  /// @param is_circle True, if the axis represents a circle.
+  /// @param is_angle True, if the axis represents an angle.
+  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle,
+       const bool is_angle)
       : is_circle_(is_circle),
-        circle_(is_circle_ ? T(360) : math::Fill<T>::value()),
+        circle_(is_angle ? T(360) : math::Fill<T>::value()),
         axis_(std::move(axis)) {}
 
  private:
-- 
2.43.0


From 6cf8a08f3b31b937ec15e20424bc7e8a7ccd77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 11/83] fix: restore the geodetic system when a Binning2D is
 unpickled

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..289af42 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -191,7 +191,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From 4604e89d3b73f02bbac935094873e24a677a16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/83] fix: search the nearest index of descending regular
 integer axes with half the absolute step

---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 9a7301b..4c117f3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -548,7 +548,8 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   Regular(const T start, const T stop, const T num)
       // The inverse step of this axis is stored in order to optimize the search
       // for an index for a given value by avoiding a division.
-      : AbstractRegular<T>(start, stop, num), step_2_(this->step_ >> 1) {}
+      : AbstractRegular<T>(start, stop, num),
+        step_2_((this->step_ < 0 ? -this->step_ : this->step_) >> 1) {}
 
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] constexpr auto find_index(T coordinate,
-- 
2.43.0


From 67097a605495c7dc5304ade7d4ae464084fced1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 13/83] fix: keep the unit of the dates when a grid with a
 temporal axis is pickled

---
 src/pyinterp/core/include/pyinterp/axis.hpp   |  2 +-
 src/pyinterp/core/include/pyinterp/grid.hpp   | 29 ++++++++++++++++---
 .../core/include/pyinterp/temporal_axis.hpp   |  2 +-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index e539279..44306b4 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -195,7 +195,7 @@ class Axis : public detail::Axis<T>,
   }
 
   /// Get a tuple that fully encodes the state of this instance
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] virtual auto getstate() const -> pybind11::tuple {
     // Regular
     {
       auto ptr = dynamic_cast<detail::axis::container::Regular<T> *>(
diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 8256eda..142ad42 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -7,12 +7,33 @@
 
 #include <memory>
 #include <string>
+#include <type_traits>
 #include <utility>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/broadcast.hpp"
+#include "pyinterp/temporal_axis.hpp"
 
 namespace pyinterp {
+namespace detail {
+
+/// Restore the Z-axis of a grid from its state. The state of a temporal axis
+/// holds the state of the axis and the unit of its dates.
+///
+/// @tparam AxisType Axis data type
+template <typename AxisType>
+auto restore_z_axis(const pybind11::tuple &state)
+    -> std::shared_ptr<pyinterp::Axis<AxisType>> {
+  if constexpr (std::is_same_v<AxisType, int64_t>) {
+    if (state.size() == 2 && pybind11::isinstance<pybind11::tuple>(state[0])) {
+      return std::make_shared<TemporalAxis>(TemporalAxis::setstate(state));
+    }
+  }
+  return std::make_shared<pyinterp::Axis<AxisType>>(
+      pyinterp::Axis<AxisType>::setstate(state));
+}
+
+}  // namespace detail
 
 /// Cartesian Grid 2D
 ///
@@ -178,8 +199,8 @@ class Grid3D : public Grid2D<DataType, Dimension> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  detail::restore_z_axis<AxisType>(
+                      tuple[2].cast<pybind11::tuple>()),
                   tuple[3].cast<pybind11::array_t<DataType>>());
   }
 
@@ -229,8 +250,8 @@ class Grid4D : public Grid3D<DataType, AxisType, 4> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  detail::restore_z_axis<AxisType>(
+                      tuple[2].cast<pybind11::tuple>()),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[3].cast<pybind11::tuple>())),
                   tuple[4].cast<pybind11::array_t<DataType>>());
diff --git a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
index bfaa87c..3334207 100644
--- a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
@@ -200,7 +200,7 @@ class TemporalAxis : public Axis<int64_t> {
   }
 
   /// @copydoc detail::Axis::getstate() const
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] auto getstate() const -> pybind11::tuple override {
     return pybind11::make_tuple(Axis<int64_t>::getstate(),
                                 static_cast<std::string>(dtype_));
   }
-- 
2.43.0


From 8b432ad90ccaa81c2da75ab01254db0e0c5e78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 14/83] fix: combine statistics with an accumulator that holds
 no value

---
 .../pyinterp/detail/math/descriptive_statistics.hpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..13351c3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // An empty accumulator holds neither a minimum nor a maximum.
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.sum_of_weights == 0) {
+      *this = rhs;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
-- 
2.43.0


From 363800c6137cbb5d821e8a7fe26fd1f0e4735d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 15/83] fix: initialize the maximum of the streaming histogram
 with the lowest value

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..a48ee22 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -258,7 +258,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 98a3b47b71c93876d17404f94934202371a45dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 16/83] fix: merge a streaming histogram with itself

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index a48ee22..704975c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -162,6 +162,11 @@ class StreamingHistogram {
 
   /// Merges the provided histogram into the current one.
   inline auto operator+=(const StreamingHistogram<T> &other) -> void {
+    if (this == &other) {
+      // The bins read must not be the ones that are updated.
+      *this += StreamingHistogram<T>(other);
+      return;
+    }
     count_ += other.count_;
     if (other.min_ < min_) {
       min_ = other.min_;
-- 
2.43.0


From ef5b388f172ae35fa73a736dc08fad7d9024ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 17/83] fix: do not write outside the bins of a streaming
 histogram without capacity or holding infinite values

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 704975c..73ac2c2 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -61,7 +61,9 @@ class BinDifferences {
 
  private:
   std::function<T(const Bin<T> &, const Bin<T> &)> calculate_;
-  size_t index_{std::numeric_limits<size_t>::max()};
+  // If no difference is comparable (infinite values), the first two bins are
+  // selected.
+  size_t index_{0};
   T diff_{std::numeric_limits<T>::max()};
 
   /// Simple difference calculation.
@@ -302,6 +304,10 @@ class StreamingHistogram {
 
   /// Compress the histogram if necessary.
   auto trim() -> void {
+    if (bin_count_ == 0) {
+      bins_.clear();
+      return;
+    }
     while (bins_.size() > bin_count_) {
       // Find a point qi that minimizes qi+1 - qi
       auto ix = BinDifferences<T>(bins_, weighted_diff_).index();
-- 
2.43.0


From 1db70a4a288234d30147e03f9af53f856ca19fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 18/83] fix: clear a streaming histogram without allocating
 memory

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 73ac2c2..f15fbda 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -145,7 +145,10 @@ class StreamingHistogram {
 
   /// Clears the histogram.
   inline auto clear() noexcept -> void {
-    *this = std::move(StreamingHistogram(bin_count_, weighted_diff_));
+    count_ = 0;
+    min_ = std::numeric_limits<T>::max();
+    max_ = std::numeric_limits<T>::lowest();
+    bins_.clear();
   }
 
   /// Push a new value into the histogram.
-- 
2.43.0


From 079097f27bca7f1ba674fa4beabcbe055046bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/83] fix: do not modify the left operand when statistics are
 added

---
 src/pyinterp/binning.py                            | 4 ++--
 src/pyinterp/histogram2d.py                        | 2 +-
 src/pyinterp/statistics/descriptive_descriptive.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..e00514b 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -92,7 +92,7 @@ class Binning2D:
 
     def __add__(self, other: Binning2D) -> Binning2D:
         """Overrides the default behavior of the ``+`` operator."""
-        result = copy.copy(self)
+        result = copy.deepcopy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
         result._instance += other._instance  # type: ignore[operator]
@@ -283,7 +283,7 @@ class Binning1D:
 
     def __add__(self, other: Binning1D) -> Binning1D:
         """Overrides the default behavior of the ``+`` operator."""
-        result = copy.copy(self)
+        result = copy.deepcopy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
         result._instance += other._instance  # type: ignore[operator]
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..6700117 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -105,7 +105,7 @@ class Histogram2D:
         """Overrides the default behavior of the ``+`` operator."""
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
-        result = copy.copy(self)
+        result = copy.deepcopy(self)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..76309de 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -146,7 +146,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = copy.deepcopy(self)
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From 8593a06d71ce1fd079b3449f40a8618bb59ce892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 20/83] fix: keep the properties of the instance when samples
 are pushed from dask arrays

---
 src/pyinterp/binning.py     | 11 +++++++----
 src/pyinterp/histogram2d.py |  6 ++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index e00514b..2a0fbba 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -179,8 +179,8 @@ class Binning2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, wgs, simple):
-            binning = Binning2D(x_axis, y_axis, wgs)
+        def _process_block(x, y, z, x_axis, y_axis, wgs, simple, dtype):
+            binning = Binning2D(x_axis, y_axis, wgs, dtype)
             binning.push(x, y, z, simple)
             return numpy.array([binning], dtype='object')
 
@@ -192,6 +192,7 @@ class Binning2D:
                                           self.y,
                                           self.wgs,
                                           simple,
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
@@ -337,8 +338,8 @@ class Binning1D:
         if weights is not None:
             weights = dask.array.core.asarray(weights).ravel()
 
-        def _process_block(x, z, weights, x_axis):
-            binning = Binning1D(x_axis)
+        def _process_block(x, z, weights, x_axis, bounds, dtype):
+            binning = Binning1D(x_axis, bounds, dtype)
             binning.push(x, z, weights)
             return numpy.array([binning], dtype='object')
 
@@ -347,6 +348,8 @@ class Binning1D:
                                           z.ravel(),
                                           weights,
                                           self.x,
+                                          self.range(),
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index 6700117..a9d6a27 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -77,6 +77,7 @@ class Histogram2D:
         else:
             raise ValueError(f'dtype {dtype} not handled by the object')
         self.dtype = dtype
+        self.bin_counts = bin_counts
 
     @property
     def x(self) -> core.Axis:
@@ -149,8 +150,8 @@ class Histogram2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, dtype):
-            hist2d = Histogram2D(x_axis, y_axis, dtype=dtype)
+        def _process_block(x, y, z, x_axis, y_axis, bin_counts, dtype):
+            hist2d = Histogram2D(x_axis, y_axis, bin_counts, dtype)
             hist2d.push(x, y, z)
             return numpy.array([hist2d], dtype='object')
 
@@ -160,6 +161,7 @@ class Histogram2D:
                                           z.ravel(),
                                           self.x,
                                           self.y,
+                                          self.bin_counts,
                                           self.dtype,
                                           dtype='object').sum()
 
-- 
2.43.0


From 6a79e8229e70fe241664dfc8cfa1066ef510c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 21/83] fix: do not merge the statistics of different cells of
 a chunked dask array

---
 src/pyinterp/statistics/descriptive_descriptive.py | 7 +++++++
 src/pyinterp/statistics/streaming_histogram.py     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 76309de..7941fe4 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -37,6 +37,13 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    if axis is not None and 0 not in axis:
+        # The blocks are merged: the first axis, which is not reduced, must not
+        # be split.
+        values = values.rechunk({0: -1})
+        if weights is not None:
+            weights = weights.rechunk({0: -1})
+
     def _process_block(attr, x, w, axis):
         instance = getattr(core, attr)(values=x, weights=w, axis=axis)
         return numpy.array([instance], dtype='object')
diff --git a/src/pyinterp/statistics/streaming_histogram.py b/src/pyinterp/statistics/streaming_histogram.py
index ef5f4be..3f2b1f0 100644
--- a/src/pyinterp/statistics/streaming_histogram.py
+++ b/src/pyinterp/statistics/streaming_histogram.py
@@ -36,6 +36,13 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    if axis is not None and 0 not in axis:
+        # The blocks are merged: the first axis, which is not reduced, must not
+        # be split.
+        values = values.rechunk({0: -1})
+        if weights is not None:
+            weights = weights.rechunk({0: -1})
+
     def _process_block(attr, x, w, axis, bin_count):
         instance = getattr(core, attr)(values=x,
                                        weights=w,
-- 
2.43.0


From 925ac6b4532694d877de7662438e9fcf37f6731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 22/83] fix: check the shape of the arrays pushed into a 1D
 binning

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 289af42..e4759ed 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -387,6 +387,13 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
+
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From fad502d38448332edb6efc902937b3a41d7f505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 23/83] fix: bounds of an RTree whose points have negative
 coordinates

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 07b2092..a2272f5 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From eb8131a828a8092266f611c060e292875235a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 24/83] fix: take into account the altitude of the points
 interpolated by kriging

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index a2272f5..41f3694 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -336,7 +336,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       case dimension_t::value:
         return _universal_kriging<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
-                  : &RTree<Point, Type>::from_lon_lat,
+                  : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, cov,
             sigma, lambda, within, num_threads);
-- 
2.43.0


From aa71257b046a1f36ce148741b675c8e1e70c8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 25/83] fix: latitudes of the bounds of the geodetic RTree

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index b80ac3f..496e886 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -34,9 +34,9 @@ auto RTree::equatorial_bounds() const -> std::optional<Box> {
   auto box = this->bounds();
   if (box.has_value()) {
     return Box(Point(boost::geometry::get<0>(box.value().min_corner()),
-                     boost::geometry::get<0>(box.value().min_corner())),
+                     boost::geometry::get<1>(box.value().min_corner())),
                Point(boost::geometry::get<0>(box.value().max_corner()),
-                     boost::geometry::get<0>(box.value().max_corner())));
+                     boost::geometry::get<1>(box.value().max_corner())));
   }
   return {};
 }
-- 
2.43.0


From 78f2404f72e6cbba32358e8d1fa7c47d16f95f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 26/83] fix: do not allocate memory in the noexcept functions
 of the axes

---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp       | 9 ++++-----
 .../core/include/pyinterp/detail/axis/container.hpp      | 6 +++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 451399d..a8a919b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -100,11 +100,10 @@ class Axis {
   /// Move constructor
   ///
   /// @param rhs right value
-  Axis(Axis &&rhs) noexcept {
-    is_circle_ = rhs.is_circle_;
-    circle_ = rhs.circle_;
-    axis_ = std::move(rhs.axis_);
-  }
+  Axis(Axis &&rhs) noexcept
+      : is_circle_(rhs.is_circle_),
+        circle_(rhs.circle_),
+        axis_(std::move(rhs.axis_)) {}
 
   /// Copy assignment operator
   ///
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 4c117f3..c81ca10 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -169,7 +169,7 @@ class Undefined : public Abstract<T> {
 
   /// @copydoc Abstract::slice(const int64_t, const int64_t) const
   [[nodiscard]] constexpr auto slice(const int64_t /* start */,
-                                     const int64_t /* count */) const noexcept
+                                     const int64_t /* count */) const
       -> Vector<T> override {
     auto result = Vector<T>(1);
     result[0] = math::Fill<T>::value();
@@ -282,7 +282,7 @@ class Irregular : public Abstract<T> {
 
   /// @copydoc Abstract::slice(const int64_t, const int64_t) const
   [[nodiscard]] constexpr auto slice(const int64_t start,
-                                     const int64_t count) const noexcept
+                                     const int64_t count) const
       -> Vector<T> override {
     return points_.segment(start, count);
   }
@@ -436,7 +436,7 @@ class AbstractRegular : public Abstract<T> {
 
   /// @copydoc Abstract::slice(const int64_t, const int64_t) const
   [[nodiscard]] constexpr auto slice(const int64_t start,
-                                     const int64_t count) const noexcept
+                                     const int64_t count) const
       -> Vector<T> override {
     auto result = Vector<T>(count);
     for (int64_t ix = 0; ix < count; ++ix) {
-- 
2.43.0


From 80f5aa1f91e0fc7d881abbf173f3c2699ffb4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 27/83] fix: raise the error of a failed allocation without the
 GIL when zooming geohashes

---
 src/pyinterp/core/lib/geohash/int64.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..3cad89b 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -6,6 +6,9 @@
 
 #include <array>
 #include <iostream>
+#include <memory>
+#include <new>
+#include <string>
 
 // Ref: https://mmcloughlin.com/posts/geohash-assembly
 namespace pyinterp::geohash::int64 {
@@ -229,6 +232,22 @@ auto format_bytes(size_t bytes) -> std::string {
   return result.empty() ? std::to_string(bytes) + " B" : result;
 }
 
+// ---------------------------------------------------------------------------
+// Failure of an allocation, converted by pybind11 into a Python MemoryError.
+// This exception can be thrown without holding the GIL.
+class AllocationError : public std::bad_alloc {
+ public:
+  explicit AllocationError(const std::string &message)
+      : message_(std::make_shared<std::string>(message)) {}
+
+  [[nodiscard]] auto what() const noexcept -> const char * override {
+    return message_->c_str();
+  }
+
+ private:
+  std::shared_ptr<std::string> message_;
+};
+
 // ---------------------------------------------------------------------------
 auto allocate_array(const size_t size) -> Vector<uint64_t> {
   try {
@@ -237,8 +256,7 @@ auto allocate_array(const size_t size) -> Vector<uint64_t> {
     auto ss = std::stringstream();
     ss << "Unable to allocate " << format_bytes(size * 8ULL)
        << " for an array with shape (" << size << ",) and data type uint64";
-    PyErr_SetString(PyExc_MemoryError, ss.str().c_str());
-    throw pybind11::error_already_set();
+    throw AllocationError(ss.str());
   }
 }
 
-- 
2.43.0


From 703e46f059b7cb24ea43f6957f7b209bcc45ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 28/83] fix: return NaN instead of throwing it outside the
 interpolation window

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp      | 4 ++--
 .../core/include/pyinterp/detail/interpolation/bicubic.hpp    | 2 +-
 .../core/include/pyinterp/detail/interpolation/bilinear.hpp   | 2 +-
 .../core/include/pyinterp/detail/interpolation/polynomial.hpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2a7feb5 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -96,7 +96,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -113,7 +113,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..60eddb6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -97,7 +97,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -112,7 +112,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
-- 
2.43.0


From 0515258ad4e1d9536cfa0733ac266ffb643cd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 29/83] fix: refuse geohashes without characters

---
 .../core/include/pyinterp/geohash.hpp         | 21 ++++++++++---------
 src/pyinterp/core/module/geohash/string.cpp   |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..ec51c82 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -53,10 +53,7 @@ class GeoHash {
   /// @param[in] latitude Latitude of the point.
   /// @param[in] precision Number of characters in the geohash.
   GeoHash(double longitude, double latitude, uint32_t precision)
-      : code_(precision, '\0') {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+      : code_(check_precision(precision), '\0') {
     string::encode(
         {detail::math::normalize_angle(longitude, -180.0, 360.0), latitude},
         code_.data(), precision);
@@ -70,9 +67,7 @@ class GeoHash {
   /// @throw std::invalid_argument if the geohash is not valid.
   static auto from_string(const std::string &code, bool round) -> GeoHash {
     auto precision = static_cast<uint32_t>(code.size());
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     if (!Base32().validate(code.data(), precision)) {
       throw std::invalid_argument("GeoHash is not valid");
     }
@@ -154,9 +149,7 @@ class GeoHash {
   /// precision
   [[nodiscard]] static auto error_with_precision(const uint32_t precision)
       -> std::tuple<double, double> {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     return int64::error_with_precision(precision * 5);
   }
 
@@ -169,6 +162,14 @@ class GeoHash {
  private:
   std::string code_{};
 
+  /// Checks the number of characters of a geohash.
+  static auto check_precision(const uint32_t precision) -> uint32_t {
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
+    }
+    return precision;
+  }
+
   /// Default constructor.
   explicit GeoHash(const size_t precision) : code_(precision, '\0') {}
 
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0


From 3888b665460c8ecbab8a1ac4b5e59b760c492681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 30/83] fix: check the size of the coordinates given to
 LineString.closest_point

---
 src/pyinterp/core/lib/geodetic/line_string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index c445221..3ced007 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -222,6 +222,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
                                const std::optional<Spheroid>& wgs,
                                const size_t num_threads) const
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
+  detail::check_eigen_shape("lon", lon, "lat", lat);
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
   auto except = detail::SharedException();
-- 
2.43.0


From 6495498eb95983f9d0005257ef1ec957bf140dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 31/83] fix: merge lists of periods that do not have the same
 unit of time

PeriodList.merge built the converted list from a structured array, which
the constructor refuses.
---
 src/pyinterp/period.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..4570691 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -431,8 +431,10 @@ class PeriodList:
             A new PeriodList with the periods merged.
         """
         if self._datetime64 != other._datetime64:
-            periods = other.periods.astype(self._datetime64)
-            other = PeriodList(periods, dtype=self._datetime64)
+            periods = other.periods
+            other = PeriodList(
+                numpy.vstack((periods['begin'], periods['last'])).astype(
+                    self._datetime64))
         self._instance.merge(other._instance)
         return self
 
-- 
2.43.0


From 6ab0ea79760175e7447b2ead851c91d3394a6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 32/83] fix: convert the period given to PeriodList.within and
 intersection

The bounds of a period were compared with those of the list without
taking their units of time into account.
---
 src/pyinterp/period.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index 4570691..cde35fb 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -370,6 +370,13 @@ class PeriodList:
             return self
         return PeriodList(instance, dtype=self._datetime64)
 
+    def _as_base_class(self, period: Period) -> core.Period:
+        """Returns the base class of the period, in the unit of the list."""
+        resolution = _time64_unit(self._datetime64)
+        if period.resolution != resolution:
+            period = period.as_resolution(resolution)
+        return period.as_base_class()
+
     def within(self, period: Period) -> PeriodList:
         """Returns a PeriodList containing only periods within the given
         period.
@@ -380,7 +387,7 @@ class PeriodList:
         Returns:
             A new PeriodList with only periods within the given period.
         """
-        return PeriodList(self._instance.within(period.as_base_class()),
+        return PeriodList(self._instance.within(self._as_base_class(period)),
                           dtype=self._datetime64)
 
     def intersection(self, period: Period) -> PeriodList:
@@ -394,7 +401,8 @@ class PeriodList:
             A new PeriodList with only periods that intersect the given
             period.
         """
-        return PeriodList(self._instance.intersection(period.as_base_class()),
+        return PeriodList(self._instance.intersection(
+            self._as_base_class(period)),
                           dtype=self._datetime64)
 
     def duration(self) -> NDArrayTimeDelta:
-- 
2.43.0


From 8ce6a6f31bdea2850ac254cec96e07c9e03a2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 33/83] fix: keep the whole of overlapping periods when they
 are joined

A period enclosed by the previous one replaced its end, and the following
gap was measured from it.
---
 src/pyinterp/core/include/pyinterp/period.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 0f1035f..82829d2 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -2,6 +2,7 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cstdint>
 #include <optional>
 
@@ -377,9 +378,11 @@ class PeriodList {
 
     auto ix = int64_t(1);
     for (auto jx = int64_t(1); jx < result.periods_.size(); ++jx) {
-      auto dt = periods_[jx].begin - periods_[jx - 1].last;
+      // A period may end after those that follow it.
+      auto &previous = result.periods_(ix - 1);
+      auto dt = periods_[jx].begin - previous.last;
       if (dt <= epsilon) {
-        result.periods_(ix - 1).last = periods_[jx].last;
+        previous.last = std::max(previous.last, periods_[jx].last);
       } else {
         result.periods_(ix) = periods_[jx];
         ++ix;
-- 
2.43.0


From 213d9d4bacc0e6dd22cd29e4624e47bad60c5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 34/83] fix: keep the iterators of LineString and MultiPolygon
 valid

The iterators pointed to the storage of the object, which is replaced when
an item is appended; the iterator of LineString did not keep the object
alive either.
---
 src/pyinterp/core/module/geodetic.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index d0b6e36..17f9df3 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -853,12 +853,13 @@ Args:
           py::arg("polygon"),
           "True if the multi-polygon has the specified polygon, else False",
           py::call_guard<py::gil_scoped_release>())
-      .def(
-          "__iter__",
-          [](const geodetic::MultiPolygon &self) {
-            return py::make_iterator(self.begin(), self.end());
-          },
-          py::keep_alive<0, 1>())
+      .def("__iter__",
+           [](const geodetic::MultiPolygon &self) {
+             // The polygons are copied: the iterator stays valid when this
+             // instance is modified or destroyed.
+             return py::iter(py::cast(
+                 std::vector<geodetic::Polygon>(self.begin(), self.end())));
+           })
       .def(
           "__eq__",
           [](const geodetic::MultiPolygon &self,
@@ -1133,8 +1134,10 @@ Args:
            "representation of a point.")
       .def("__iter__",
            [](const geodetic::LineString &self) {
-             return py::make_iterator(self.begin(), self.end(),
-                                      py::keep_alive<0, 1>());
+             // The points are copied: the iterator stays valid when this
+             // instance is modified or destroyed.
+             return py::iter(py::cast(
+                 std::vector<geodetic::Point>(self.begin(), self.end())));
            })
       .def(
           "curvilinear_distance",
-- 
2.43.0


From 21a397f536c777bb932b015907ed599228b8ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 35/83] fix: return a copy of the periods held by
 core.PeriodList

The array returned was a view of a storage that merge replaces.
---
 src/pyinterp/core/module/period.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/module/period.cpp b/src/pyinterp/core/module/period.cpp
index 779b970..c647f0a 100644
--- a/src/pyinterp/core/module/period.cpp
+++ b/src/pyinterp/core/module/period.cpp
@@ -85,7 +85,13 @@ void init_period(py::module &m) {
             return {std::move(periods)};
           }))
       .def("__len__", &pyinterp::PeriodList::size)
-      .def_property_readonly("periods", &pyinterp::PeriodList::periods)
+      .def_property_readonly(
+          "periods",
+          // A copy: the storage of the list is replaced by "merge".
+          [](const pyinterp::PeriodList &self)
+              -> Eigen::Matrix<pyinterp::Period, -1, 1> {
+            return self.periods();
+          })
       .def("are_periods_sorted_and_disjointed",
            &pyinterp::PeriodList::are_periods_sorted_and_disjointed,
            py::call_guard<py::gil_scoped_release>())
-- 
2.43.0


From eb7beebabc8d5311addb59f9b48bf5737d701e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 36/83] fix: fill a grid whose axis has a single element by
 relaxation

The neighbours of the cells were read outside the grid.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 14b922a..76aeb72 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -94,6 +94,11 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto x_size = grid.rows();
   auto y_size = grid.cols();
 
+  // Distance to the cell that takes the place of the one beyond an edge: an
+  // axis of a single element has no other cell than itself.
+  const auto x_mirror = std::min<int64_t>(1, x_size - 1);
+  const auto y_mirror = std::min<int64_t>(1, y_size - 1);
+
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
   auto except = detail::SharedException();
@@ -133,13 +138,14 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
     try {
       for (auto ix = 0; ix < x_size; ++ix) {
-        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : 1) : ix - 1;
-        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 2) : ix + 1;
+        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : x_mirror) : ix - 1;
+        auto ix1 =
+            ix == x_size - 1 ? (is_circle ? 0 : ix - x_mirror) : ix + 1;
 
         for (auto iy = y_start; iy < y_end; ++iy) {
           if (mask(ix, iy) && ((ix + iy) % 2) == red_black) {
-            auto iy0 = iy == 0 ? 1 : iy - 1;
-            auto iy1 = iy == y_size - 1 ? y_size - 2 : iy + 1;
+            auto iy0 = iy == 0 ? y_mirror : iy - 1;
+            auto iy1 = iy == y_size - 1 ? iy - y_mirror : iy + 1;
 
             cell_fill(ix0, ix, ix1, iy0, iy, iy1);
           }
-- 
2.43.0


From 8ae8d410e8497110f43ed9b5d6fd460c537d9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 37/83] fix: apply the LOESS filter to an axis of a single
 element

The index of the symmetrical cell was divided by zero.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 76aeb72..503106e 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -361,7 +361,9 @@ inline auto frame_index(const int64_t index, const int64_t size,
     } else {
       // Otherwise, the symmetrical indexes are used if the indexes are outside
       // the domain definition.
-      if (idx < 0 || idx >= size) {
+      if (size == 1) {
+        idx = 0;
+      } else if (idx < 0 || idx >= size) {
         auto where = detail::math::remainder(idx, (size - 1) * 2);
         if (where >= size) {
           idx = size - 2 - detail::math::remainder(where, size);
-- 
2.43.0


From 86f55ed6c31408955ef0583f7e9db111a472265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 38/83] fix: keep the value of a line with a single defined
 point

fill.matrix marked the point as undefined, and the processing of the
columns overwrote it.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 503106e..7de074e 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -242,9 +242,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
     }
   }
 
-  // If there are no valid points, then we can't interpolate anything.
+  // If there are less than two valid points, then we can't interpolate
+  // anything: the points that are defined stay so.
   if (last_valid == first_valid) {
-    is_undefined.setOnes();
     return;
   }
 
-- 
2.43.0


From da98bc80008b964f05e14f8f94ff90f80324cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 39/83] fix: fill matrices of single precision

fill.matrix called the double precision function as well, which refuses
the array.
---
 src/pyinterp/fill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 2c250dd..da89477 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -164,7 +164,8 @@ def matrix(x: NDArray,
         x = numpy.copy(x)
     if dtype == numpy.float32:
         core.fill.matrix_float32(x, fill_value)
-    core.fill.matrix_float64(x, fill_value)
+    else:
+        core.fill.matrix_float64(x, fill_value)
     return x
 
 
-- 
2.43.0


From 886a20e342d4178eaea34a36243a4700e366b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 40/83] fix: refuse the saved states that do not describe an
 axis

---
 src/pyinterp/core/include/pyinterp/axis.hpp   | 22 ++++++++++++++-----
 .../pyinterp/detail/axis/container.hpp        | 13 +++++++++--
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index 44306b4..750b557 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -236,6 +236,12 @@ class Axis : public detail::Axis<T>,
       throw std::invalid_argument("invalid state");
     }
     auto identification = state[0].cast<int64_t>();
+    // The last flag is not registered by the previous versions.
+    auto check_size = [&state](const size_t size) -> void {
+      if (state.size() != size && state.size() + 1 != size) {
+        throw std::invalid_argument("invalid state");
+      }
+    };
     // States registered by the previous versions end with the "circle" flag.
     auto is_angle = [&state](const size_t is_circle) -> bool {
       return state[state.size() > is_circle + 1 ? is_circle + 1 : is_circle]
@@ -246,14 +252,18 @@ class Axis : public detail::Axis<T>,
         return Axis();
         break;
       case detail::axis::IRREGULAR: {
-        auto ndarray = state[1].cast<pybind11::array_t<T>>();
-        return Axis(
-            std::unique_ptr<detail::axis::container::Abstract<T>>(
-                new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
-                    ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>(), is_angle(2));
+        check_size(4);
+        auto ndarray =
+            state[1]
+                .cast<pybind11::array_t<T, pybind11::array::c_style |
+                                               pybind11::array::forcecast>>();
+        auto values = detail::vector_from_numpy<T>("points", ndarray);
+        return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
+                        new detail::axis::container::Irregular<T>(values)),
+                    state[2].cast<bool>(), is_angle(2));
       }
       case detail::axis::REGULAR:
+        check_size(6);
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         new detail::axis::container::Regular<T>(
                             state[1].cast<T>(), state[2].cast<T>(),
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index c81ca10..e46be1b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -378,16 +378,25 @@ class AbstractRegular : public Abstract<T> {
   /// @param stop the end value of the sequence
   /// @param num number of samples in the container
   AbstractRegular(const T start, const T stop, const T num)
-      : size_(static_cast<int64_t>(num)), start_(start) {
-    if (num == 0) {
+      : start_(start) {
+    // The comparison is written so that NaN is refused.
+    if (!(num >= 1)) {
       throw std::invalid_argument("unable to create an empty container.");
     }
+    if (num > static_cast<T>(std::numeric_limits<int64_t>::max() / 2)) {
+      throw std::invalid_argument("unable to create such a large container.");
+    }
+    size_ = static_cast<int64_t>(num);
     if (start == stop) {
       throw std::invalid_argument(
           "unable to create a container with a single "
           "value.");
     }
     step_ = num == 1 ? stop - start : (stop - start) / (num - 1);
+    if (step_ == 0) {
+      throw std::invalid_argument(
+          "unable to create a container with a null step.");
+    }
     // The inverse step of this axis is stored in order to optimize the search
     // for an index for a given value by avoiding a division.
     this->is_ascending_ = this->calculate_is_ascending();
-- 
2.43.0


From e650d732837d043e3560097e67f73c72ffa1c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 41/83] fix: search undefined dates on an axis of step -1

---
 .../core/include/pyinterp/detail/axis/container.hpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index e46be1b..e482ff8 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -564,8 +564,11 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   [[nodiscard]] constexpr auto find_index(T coordinate,
                                           bool bounded) const noexcept
       -> int64_t override {
-    auto index =
-        static_cast<int64_t>(round((coordinate - this->start_), this->step_));
+    // The divisor is always positive: dividing the smallest integer (undefined
+    // dates) by -1 is not defined.
+    auto index = static_cast<int64_t>(
+        this->step_ < 0 ? round(this->start_ - coordinate, -this->step_)
+                        : round(coordinate - this->start_, this->step_));
 
     if (index < 0) {
       return bounded ? 0 : -1;
-- 
2.43.0


From b5a517a8b2718ee0573669a7033025bb640a4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 42/83] fix: refuse the saved statistics that do not match
 their shape

---
 .../pyinterp/descriptive_statistics.hpp       |  1 +
 .../include/pyinterp/detail/broadcast.hpp     | 25 +++++++++++++++++++
 .../include/pyinterp/streaming_histogram.hpp  |  1 +
 3 files changed, 27 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
index 67d9a32..7c3fcf1 100644
--- a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
@@ -145,6 +145,7 @@ class DescriptiveStatistics {
     }
     auto accumulators = state[0].cast<Vector<detail::math::Accumulators<T>>>();
     auto shape = state[1].cast<std::vector<pybind11::ssize_t>>();
+    detail::check_shape_size(shape, accumulators.size());
 
     return std::make_unique<DescriptiveStatistics<T>>(
         std::move(accumulators.template cast<Accumulators>()),
diff --git a/src/pyinterp/core/include/pyinterp/detail/broadcast.hpp b/src/pyinterp/core/include/pyinterp/detail/broadcast.hpp
index 5fe590b..a95fb8f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/broadcast.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/broadcast.hpp
@@ -3,9 +3,12 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <algorithm>
+#include <cstddef>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 namespace pyinterp::detail {
 
@@ -106,6 +109,28 @@ void check_container_size(const std::string &name1, const Vector1 &v1,
   check_container_size(name1, v1, args...);
 }
 
+/// Checks that a shape describes the expected number of elements.
+///
+/// @param shape shape to check
+/// @param size expected number of elements
+/// @throw std::invalid_argument if the shape is not the one of an array holding
+/// the expected number of elements.
+inline void check_shape_size(const std::vector<std::ptrdiff_t> &shape,
+                             const std::ptrdiff_t size) {
+  auto null = std::any_of(shape.begin(), shape.end(),
+                          [](const auto dim) { return dim == 0; });
+  auto count = static_cast<std::ptrdiff_t>(null ? 0 : 1);
+  for (const auto dim : shape) {
+    if (dim < 0 || (!null && dim > size / count)) {
+      throw std::invalid_argument("the shape does not match the data size");
+    }
+    count *= dim;
+  }
+  if (count != size) {
+    throw std::invalid_argument("the shape does not match the data size");
+  }
+}
+
 /// Automation of the control of the number of dimensions of a tensor.
 ///
 /// @param name name of the variable containing the first array
diff --git a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
index 3da2f47..d0b92e4 100644
--- a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
@@ -191,6 +191,7 @@ class StreamingHistogram {
     auto marshal_data = state[1].cast<pybind11::bytes>();
     auto accumulators =
         StreamingHistogram::unmarshal(marshal_data.cast<std::string_view>());
+    detail::check_shape_size(shape, accumulators.size());
     return std::make_unique<StreamingHistogram<T>>(std::move(accumulators),
                                                    std::move(shape));
   }
-- 
2.43.0


From f359c36975fd4c17256e4800a565d073c7bdd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 43/83] fix: check the dimensions of the arrays of a saved
 R-tree

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 3 ++-
 src/pyinterp/core/lib/geodetic/rtree.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 41f3694..57961e5 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -379,7 +379,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     auto x = state[2].cast<pybind11::array_t<coordinate_t>>();
     auto u = state[3].cast<pybind11::array_t<Type>>();
 
-    if (x.shape(1) != dimension_t::value || x.shape(0) != u.size()) {
+    if (x.ndim() != 2 || u.ndim() != 1 ||
+        x.shape(1) != dimension_t::value || x.shape(0) != u.size()) {
       throw std::runtime_error("invalid state");
     }
 
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 496e886..41db31b 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -334,7 +334,8 @@ auto RTree::setstate(const pybind11::tuple &state) -> RTree {
   auto coordinates = state[2].cast<pybind11::array_t<double>>();
   auto data = state[3].cast<pybind11::array_t<double>>();
 
-  if (coordinates.shape(1) != 2 || coordinates.shape(0) != data.size()) {
+  if (coordinates.ndim() != 2 || data.ndim() != 1 ||
+      coordinates.shape(1) != 2 || coordinates.shape(0) != data.size()) {
     throw std::runtime_error("invalid state");
   }
 
-- 
2.43.0


From 131a25923d6378d50a5057d19f1ba05e2bafa5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 44/83] fix: search the nearest points of empty lines

---
 src/pyinterp/core/lib/geodetic/crossover.cpp   | 16 ++++++++++------
 src/pyinterp/core/lib/geodetic/line_string.cpp |  7 +++++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 66c5dde..44dde1a 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -30,12 +30,16 @@ class NearestPoint {
   /// point.
   ///
   /// @param point the point to search.
-  /// @return the index of the nearest point or none if no intersection is
-  ///         found.
-  [[nodiscard]] inline auto operator()(const Point& point) const -> size_t {
+  /// @return the index of the nearest point or none if the linestring is
+  ///         empty.
+  [[nodiscard]] inline auto operator()(const Point& point) const
+      -> std::optional<size_t> {
     std::vector<std::pair<Point, size_t>> result;
     rtree_.query(boost::geometry::index::nearest(point, 1),
                  std::back_inserter(result));
+    if (result.empty()) {
+      return {};
+    }
     return result[0].second;
   }
 
@@ -95,16 +99,16 @@ auto Crossover::nearest(const Point& point, const double predicate,
                         const std::optional<Spheroid>& wgs) const
     -> std::optional<std::tuple<size_t, size_t>> {
   auto ix1 = NearestPoint(half_orbit_1_)(point);
-  if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
+  if (!ix1 || half_orbit_1_[*ix1].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
   auto ix2 = NearestPoint(half_orbit_2_)(point);
-  if (half_orbit_2_[ix2].distance(point, strategy, wgs) > predicate) {
+  if (!ix2 || half_orbit_2_[*ix2].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
-  return std::make_tuple(ix1, ix2);
+  return std::make_tuple(*ix1, *ix2);
 }
 
 auto crossover(const Eigen::Ref<const Eigen::VectorXd>& lon1,
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 3ced007..05219d1 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -89,8 +89,11 @@ auto LineString::setstate(const pybind11::tuple& state) -> LineString {
   if (state.size() != 2) {
     throw std::runtime_error("invalid state");
   }
-  auto lon = state[0].cast<pybind11::array_t<double>>();
-  auto lat = state[1].cast<pybind11::array_t<double>>();
+  using array_t = pybind11::array_t<double, pybind11::array::c_style |
+                                                pybind11::array::forcecast>;
+  auto lon = state[0].cast<array_t>();
+  auto lat = state[1].cast<array_t>();
+  detail::check_array_ndim("lon", 1, lon, "lat", 1, lat);
 
   auto x = Eigen::Map<const Eigen::VectorXd>(lon.data(), lon.size());
   auto y = Eigen::Map<const Eigen::VectorXd>(lat.data(), lat.size());
-- 
2.43.0


From 7471e30916c1ae7f4fbb8736b2ec506407ca5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 45/83] fix: refuse the saved histograms whose sizes are wrong

---
 src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp | 4 ++++
 .../include/pyinterp/detail/math/streaming_histogram.hpp   | 3 +++
 src/pyinterp/core/include/pyinterp/streaming_histogram.hpp | 7 ++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp b/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
index 9c689bd..e1be827 100644
--- a/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
@@ -64,6 +64,10 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   /// Extract a string_view from the stream.
   auto readview(const std::streamsize count) -> std::string_view {
     auto avail = this->egptr() - this->gptr();
+    if (count < 0) {
+      setstate(std::ios_base::badbit | std::ios_base::failbit);
+      return {};
+    }
     auto size = std::min(count, avail);
     auto result = std::string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index f15fbda..3c3b08d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -109,6 +109,9 @@ class StreamingHistogram {
       ss.read(reinterpret_cast<char *>(&min_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&max_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&size), sizeof(size_t));
+      if (size > state.size() / sizeof(Bin<T>)) {
+        throw std::invalid_argument("invalid state");
+      }
       bins_.resize(size);
       ss.read(reinterpret_cast<char *>(bins_.data()), size * sizeof(Bin<T>));
     } catch (const std::ios_base::failure &e) {
diff --git a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
index d0b92e4..d0b9c58 100644
--- a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
@@ -321,8 +321,13 @@ class StreamingHistogram {
     try {
       auto size = static_cast<Eigen::Index>(0);
       ss.read(reinterpret_cast<char *>(&size), sizeof(size));
+      // Each accumulator is preceded by its size.
+      if (size < 0 || size > static_cast<Eigen::Index>(data.size() /
+                                                       sizeof(size_t))) {
+        throw std::invalid_argument("invalid state");
+      }
       auto accumulators = Vector<Accumulators>(size);
-      for (int ix = 0; ix < size; ++ix) {
+      for (auto ix = static_cast<Eigen::Index>(0); ix < size; ++ix) {
         auto size = static_cast<size_t>(0);
         ss.read(reinterpret_cast<char *>(&size), sizeof(size));
         accumulators(ix) = std::move(
-- 
2.43.0


From e53de9faf7252738f088afa20d2b4d9be169fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 46/83] fix: quantile of histograms with undefined weights

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 3c3b08d..25f8a8c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -227,10 +227,15 @@ class StreamingHistogram {
       return bins_.back().value + (ratio * (max_ - bins_.back().value));
     }
 
+    if (bins_.size() == 1) {
+      // The weight of the only bin is undefined.
+      return std::numeric_limits<T>::quiet_NaN();
+    }
+
     auto ix = static_cast<size_t>(0);
     auto mb = qw - bins_.front().weight * 0.5;
-    while (mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0 &&
-           ix < bins_.size() - 1) {
+    while (ix + 2 < bins_.size() &&
+           mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0) {
       mb -= (bins_[ix].weight + bins_[ix + 1].weight) * 0.5;
       ix += 1;
     }
-- 
2.43.0


From 96f4fd4e0b729f7a2fcba22608be84da6b02f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 47/83] fix: size the periodic spline to the window it
 interpolates

The matrix was only reallocated for larger windows: a smaller window was then
solved with the remains of the previous one, so the value interpolated at a
position depended on the positions processed before.
---
 .../include/pyinterp/detail/interpolation/cspline_periodic.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index 2847961..fcccfce 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -96,7 +96,7 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
                                               const Vector<T> &ya) -> void {
   Interpolator1D<T>::compute_coefficients(xa, ya);
   auto size = xa.size();
-  if (this->x_.size() < size) {
+  if (this->x_.size() != size) {
     this->A_.resize(size - 1, size - 1);
     this->b_.resize(size - 1);
     this->x_.resize(size);
-- 
2.43.0


From 49b0adee49c869787eda2bb6442e10186cb28205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 48/83] fix: solve periodic splines of three points

The cyclic solver read and wrote out of the bounds of its arrays when the
system has two unknowns.
---
 .../detail/interpolation/cspline_periodic.hpp   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index fcccfce..363e33c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -47,6 +47,13 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
     x[0] = this->b_(0) / this->A_(0, 0);
     return;
   }
+  if (size == 2) {
+    const auto det =
+        this->A_(0, 0) * this->A_(1, 1) - this->A_(0, 1) * this->A_(1, 0);
+    x[0] = (this->A_(1, 1) * this->b_(0) - this->A_(0, 1) * this->b_(1)) / det;
+    x[1] = (this->A_(0, 0) * this->b_(1) - this->A_(1, 0) * this->b_(0)) / det;
+    return;
+  }
 
   alpha_(0) = this->A_(0, 0);
   gamma_(0) = this->A_(0, 1) / alpha_(0);
@@ -84,10 +91,8 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
 
   x[size_m1] = c_(size_m1);
   x[size_m2] = c_(size_m2) - gamma_(size_m2) * x[size_m1];
-  if (size >= 3) {
-    for (int i = size_m3, j = 0; j <= size_m3; j++, i--) {
-      x[i] = c_(i) - gamma_(i) * x[i + 1] - delta_(i) * x[size_m1];
-    }
+  for (int i = size_m3, j = 0; j <= size_m3; j++, i--) {
+    x[i] = c_(i) - gamma_(i) * x[i + 1] - delta_(i) * x[size_m1];
   }
 }
 
@@ -133,6 +138,10 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
   this->A_(i, i) = 2 * (h_i0 + h_i1);
   this->A_(0, i) = h_i1;
   this->b_(i) = 3 * (y_i1 * g_i1 - y_i0 * g_i0);
+  if (size == 3) {
+    // The two points of the system are neighbours on both sides.
+    this->A_(0, 1) = this->A_(1, 0) = h_i0 + h_i1;
+  }
   solve_symmetric_cyclic_tridiagonal(this->x_.data() + 1);
   this->x_(0) = this->x_(size - 1);
 }
-- 
2.43.0


From c5ba91c3a3414d866e4bb46689eaba7881ef1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 49/83] fix: release the objects built by dateutils.datetime

The array did not own its items, so none was ever released; and a date that
Python cannot represent left a null item and a pending exception behind, which
was reported as a SystemError.
---
 src/pyinterp/core/module/dateutils.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/module/dateutils.cpp b/src/pyinterp/core/module/dateutils.cpp
index 9dbb587..a104f6d 100644
--- a/src/pyinterp/core/module/dateutils.cpp
+++ b/src/pyinterp/core/module/dateutils.cpp
@@ -138,7 +138,9 @@ static auto timedelta_since_january(const py::array &array) -> py::array {
 
 static auto datetime(const py::array &array) -> py::array {
   auto frac = fractional_seconds_from_dtype(array.dtype());
-  auto *buffer = new PyObject *[array.size()];
+  auto result = py::array(py::dtype("object"),
+                          py::array::ShapeContainer({array.size()}), nullptr);
+  auto **buffer = static_cast<PyObject **>(result.mutable_data());
   auto _array = array.unchecked<int64_t, 1>();
 
   if (PyDateTimeAPI == nullptr) {
@@ -150,16 +152,17 @@ static auto datetime(const py::array &array) -> py::array {
     auto date = dateutils::date_from_days(days);
     auto time = dateutils::time_from_seconds(seconds);
 
-    buffer[ix] = PyDateTime_FromDateAndTime(
+    auto *item = PyDateTime_FromDateAndTime(
         date.year, date.month, date.day, time.hour, time.minute, time.second,
         static_cast<int>(frac.cast(fractional_part, dateutils::kMicrosecond)));
+    if (item == nullptr) {
+      throw py::error_already_set();
+    }
+    // The array owns its items
+    Py_XDECREF(buffer[ix]);
+    buffer[ix] = item;
   }
-  auto capsule = py::capsule(
-      buffer, [](void *ptr) { delete[] static_cast<PyObject *>(ptr); });
-
-  return py::array(py::dtype("object"),
-                   pybind11::array::ShapeContainer({array.size()}), buffer,
-                   capsule);
+  return result;
 }
 
 }  // namespace detail
-- 
2.43.0


From 8b1a3551cb47cb7b50e613f3a72d109c214e8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 50/83] fix: compare the size of integer axes without overflow

---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index e482ff8..9220b92 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -383,7 +383,8 @@ class AbstractRegular : public Abstract<T> {
     if (!(num >= 1)) {
       throw std::invalid_argument("unable to create an empty container.");
     }
-    if (num > static_cast<T>(std::numeric_limits<int64_t>::max() / 2)) {
+    if (static_cast<double>(num) >
+        static_cast<double>(std::numeric_limits<int64_t>::max() / 2)) {
       throw std::invalid_argument("unable to create such a large container.");
     }
     size_ = static_cast<int64_t>(num);
-- 
2.43.0


From 362d064a87879ce62b70fef0f32cb84eb6aae8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 51/83] fix: keep the R-tree usable after a failed insertion

---
 .../pyinterp/detail/geometry/rtree.hpp        | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 98dd7a6..abe0d01 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -105,7 +105,15 @@ class RTree {
   /// Insert new data into the search tree
   ///
   /// @param point
-  inline auto insert(const value_t &value) -> void { tree_->insert(value); }
+  inline auto insert(const value_t &value) -> void {
+    try {
+      tree_->insert(value);
+    } catch (...) {
+      // After a failed insertion, no item must be inserted into the tree.
+      restore();
+      throw;
+    }
+  }
 
   /// Search for the K nearest neighbors of a given point using the given
   /// strategy.
@@ -594,6 +602,16 @@ class RTree {
  protected:
   /// Geographic index used to store data and their searches.
   std::shared_ptr<rtree_t> tree_;
+
+  /// Rebuilds the tree from the items that can still be read after a failed
+  /// insertion: if this is not possible, the tree is emptied.
+  inline auto restore() noexcept -> void {
+    try {
+      packing(std::vector<value_t>(tree_->begin(), tree_->end()));
+    } catch (...) {
+      tree_->clear();
+    }
+  }
 };
 
 }  // namespace pyinterp::detail::geometry
-- 
2.43.0


From 2d0ffd8a96ce2a0fc9549a019dd09a618b376d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 52/83] fix: count the samples of zero weight received first

---
 .../detail/math/descriptive_statistics.hpp    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index 13351c3..82ece34 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -51,7 +51,7 @@ class DescriptiveStatistics {
   constexpr auto operator()(const T &value) noexcept -> void {
     const auto r = acc_.sum_of_weights;
 
-    if (r == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, 1));
     } else {
       acc_.sum_of_weights += 1;
@@ -84,7 +84,7 @@ class DescriptiveStatistics {
 
   /// push a new value into the accumulator associated with a weight
   constexpr auto operator()(const T &value, const T &weight) noexcept -> void {
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, weight));
     } else {
       this->operator+=(DescriptiveStatistics(value, weight));
@@ -156,7 +156,7 @@ class DescriptiveStatistics {
     if (rhs.acc_.count == 0) {
       return *this;
     }
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = rhs;
       return *this;
     }
@@ -171,6 +171,15 @@ class DescriptiveStatistics {
       acc_.max = rhs.acc_.max;
     }
 
+    acc_.count += rhs.acc_.count;
+
+    acc_.sum += rhs.acc_.sum;
+
+    // Samples of zero weight have no influence on the moments.
+    if (w == 0) {
+      return *this;
+    }
+
     const auto delta = rhs.acc_.mean - acc_.mean;
     const auto delta_w = delta / w;
     const auto delta2_w2 = delta_w * delta_w;
@@ -201,10 +210,6 @@ class DescriptiveStatistics {
 
     acc_.sum_of_weights = w;
 
-    acc_.count += rhs.acc_.count;
-
-    acc_.sum += rhs.acc_.sum;
-
     return *this;
   }
 
-- 
2.43.0


From 6b0c118699ba045a1a648c63959c93fb44939c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 53/83] fix: keep the bins of a streaming histogram out of
 samples of zero weight

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 25f8a8c..215c60e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -164,8 +164,11 @@ class StreamingHistogram {
     if (weighted_value > max_) {
       max_ = weighted_value;
     }
-    update_bins(value, weight);
-    trim();
+    // A value of zero weight adds nothing to the distribution.
+    if (weight != 0) {
+      update_bins(value, weight);
+      trim();
+    }
   }
 
   /// Merges the provided histogram into the current one.
-- 
2.43.0


From 7b34e96c326fce04a78afb1dfc228e5abe240b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 54/83] fix: compute the orbit from all the points of the
 ephemeris

---
 src/pyinterp/orbit.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 617f96b..38f13ce 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -116,12 +116,12 @@ def _rearrange_orbit(
     indexes = numpy.where((dy < 0) & (numpy.roll(dy, 1) >= 0))[0]
 
     # If the orbit is already starting from pass 1, nothing to do
-    if indexes[0] < int(indexes.mean()):
+    shift = indexes[0]
+    if shift <= 1:
         return lon, lat, time
 
     # Shift coordinates, so that the first point of the orbit is the beginning
     # of pass 1
-    shift = indexes[-1]
 
     lon = numpy.hstack([lon[shift:], lon[:shift]])
     lat = numpy.hstack([lat[shift:], lat[:shift]])
@@ -446,17 +446,6 @@ def calculate_orbit(
     """
     wgs = geodetic.Coordinates(spheroid)
 
-    # If the first point of the given orbit starts at the equator, we need to
-    # skew this first pass.
-    if -40 <= lat_nadir[0] <= 40:
-        dy = numpy.roll(lat_nadir, 1) - lat_nadir
-        indexes = numpy.where(((dy < 0) & (numpy.roll(dy, 1) >= 0))
-                              | ((dy > 0)
-                                 & (numpy.roll(dy, 1) <= 0)))[0]
-        lat_nadir = lat_nadir[indexes[1:]]
-        lon_nadir = lon_nadir[indexes[1:]]
-        time = time[indexes[1:]]
-
     lon_nadir = geodetic.normalize_longitudes(lon_nadir)
     time = time.astype('m8[ns]')
 
-- 
2.43.0


From add535cdc8078ef0bf052fd8b698038783e0b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 55/83] fix: equator crossing next to the first point of a pass

---
 src/pyinterp/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 38f13ce..df05c96 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -386,6 +386,8 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
     i0 = i1 - 1 if i1 > 0 else 1
     if lat_nadir[i0] * lat_nadir[i1] > 0:
         i0, i1 = (i1, i1 + 1) if i1 < lat_nadir.size - 1 else (i1 - 1, i1)
+    elif i0 > i1:
+        i0, i1 = i1, i0
     lon1 = lon_nadir[i0:i1 + 1]
     lat1 = lat_nadir[i0:i1 + 1]
 
-- 
2.43.0


From f4b240c46e53a2b89d2c4e7b0861be4f35099bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 56/83] fix: across track distances of a swath follow the
 across track resolution

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index df05c96..4dee5a5 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -598,7 +598,7 @@ def calculate_swath(
     # Number of points in half of the swath
     half_swath = int((half_swath - half_gap) / across_track_resolution) + 1
     x_ac = numpy.arange(half_swath,
-                        dtype=float) * along_track_resolution + half_gap
+                        dtype=float) * across_track_resolution + half_gap
     x_ac = numpy.hstack((-numpy.flip(x_ac), x_ac)) * 1e3
     x_ac = numpy.full((len(half_orbit), x_ac.size), x_ac)
 
-- 
2.43.0


From b8908ff940d360594310c8c92689875cb2bda407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 57/83] fix: iterate over the passes from the epoch

---
 src/pyinterp/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 4dee5a5..b38c5b4 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -274,8 +274,9 @@ class Orbit:
             iterator: An iterator for all passes in the interval pointing to
             the cycle number, pass number and start date of the half-orbit.
         """
-        date = first_date or numpy.datetime64('now')
-        last_date = last_date or date + self.cycle_duration()
+        date = numpy.datetime64('now') if first_date is None else first_date
+        if last_date is None:
+            last_date = date + self.cycle_duration()
         while date <= last_date:
             cycle_number, pass_number = self.decode_absolute_pass_number(
                 absolute_pass_number)
-- 
2.43.0


From c3dcc1193157ef94fe12eb8670a3fe9bf83a0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 58/83] fix: decode the absolute pass numbers of the cycle zero

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index b38c5b4..2c1cb07 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -229,7 +229,7 @@ class Orbit:
             tuple: cycle and pass number
         """
         number -= 1
-        return (int(number / self.passes_per_cycle()) + 1,
+        return (number // self.passes_per_cycle() + 1,
                 (number % self.passes_per_cycle()) + 1)
 
     def encode_absolute_pass_number(self, cycle_number: int,
-- 
2.43.0


From cb0b8dcef0dbce740402222b3c872850875f947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 59/83] fix: interpolate the orbit on the ellipsoid it is
 defined on

---
 src/pyinterp/orbit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 2c1cb07..6b9ec16 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -52,7 +52,9 @@ def interpolate(
         numpy.full_like(lon, height),
     )
 
-    r = numpy.sqrt(x * x + y * y + z * z * mz * mz)
+    # The ellipsoid is stretched into a sphere
+    z *= mz
+    r = numpy.sqrt(x * x + y * y + z * z)
 
     x_axis = core.Axis((xp - xp[0]).astype(numpy.float64), 1e-6, False)
     xi = (xi - xp[0]).astype(numpy.float64)
-- 
2.43.0


From a2ec385f2c059ea374a583a17a1d538abf3f1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 60/83] fix: compute the equator crossings of the descending
 passes

---
 src/pyinterp/orbit.py | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 6b9ec16..017d6f5 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -391,37 +391,19 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
         i0, i1 = (i1, i1 + 1) if i1 < lat_nadir.size - 1 else (i1 - 1, i1)
     elif i0 > i1:
         i0, i1 = i1, i0
-    lon1 = lon_nadir[i0:i1 + 1]
-    lat1 = lat_nadir[i0:i1 + 1]
-
-    # Calculate the position of the satellite at the equator
-    intersection = geodetic.LineString(
-        lon1,
-        lat1,
-    ).intersection(
-        geodetic.LineString(numpy.array([lon1[0] - 0.5, lon1[1] + 0.5]),
-                            numpy.array([0, 0], dtype='float64')))
-    if len(intersection) == 0:
+    lat0, lat1 = lat_nadir[i0], lat_nadir[i1]
+    if lat0 * lat1 > 0:
         return EquatorCoordinates.undefined()
 
-    point = intersection[0]
-
-    # Calculate the time of the point on the equator
-    lon1 = numpy.insert(lon1, 1, point.lon)
-    lat1 = numpy.insert(lat1, 1, 0)
-    x_al = geodetic.LineString(
-        lon1,
-        lat1,
-    ).curvilinear_distance(strategy='thomas')
-
-    # Pop the along track distance at the equator
-    x_eq = x_al[1]
-    x_al = numpy.delete(x_al, 1)
+    # Calculate the position and the time of the satellite at the equator:
+    # both points are close enough to neglect the curvature of the track.
+    ratio = lat0 / (lat0 - lat1) if lat0 != lat1 else 0.0
+    delta = (lon_nadir[i1] - lon_nadir[i0] + 180) % 360 - 180
 
     return EquatorCoordinates(
-        point.lon,
+        (lon_nadir[i0] + ratio * delta + 180) % 360 - 180,
         numpy.interp(  # type: ignore[arg-type]
-            x_eq, x_al, time[i0:i1 + 1].astype('i8')).astype(time.dtype),
+            ratio, (0, 1), time[i0:i1 + 1].astype('i8')).astype(time.dtype),
     )
 
 
-- 
2.43.0


From 4694a5b49d5ffe63876fe7df43d3467ed9dd8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 61/83] fix: refuse the coordinates outside the axis in
 interpolate1d

---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..afecb19 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -53,8 +53,10 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   auto result = Vector<double>(xi.size());
 
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
-    // Nearest index of the current value
-    auto index = axis->find_index(xi(ix), true);
+    // Nearest index of the current value, if the axis covers it
+    auto index = xi(ix) < axis->min_value() || xi(ix) > axis->max_value()
+                     ? -1
+                     : axis->find_index(xi(ix), false);
 
     if (index == -1) {
       if (bounds_error) {
-- 
2.43.0


From d35123ccf267f828844b3fb7c4e15de6c59fd6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 62/83] fix: compute the divided differences of the polynomial
 interpolation

---
 .../pyinterp/detail/interpolation/polynomial.hpp      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 60eddb6..b1da3ae 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -64,18 +64,19 @@ constexpr auto Polynomial<T>::compute_coefficients(const Vector<T> &xa,
   work_.segment(1, size - 1) =
       (ya.segment(1, size - 1) - ya.segment(0, size - 1)).array() /
       (xa.segment(1, size - 1) - xa.segment(0, size - 1)).array();
+  // Each order replaces, from the last one, the differences of the previous
+  // order.
   for (Eigen::Index ix = 2; ix < size; ix++) {
-    work_.segment(ix, size - ix) =
-        (work_.segment(ix, size - ix) - work_.segment(ix - 1, size - ix))
-            .array() /
-        (xa.segment(ix, size - ix) - xa.segment(ix - 1, size - ix)).array();
+    for (Eigen::Index jx = size - 1; jx >= ix; jx--) {
+      work_[jx] = (work_[jx] - work_[jx - 1]) / (xa[jx] - xa[jx - ix]);
+    }
   }
 }
 
 template <typename T>
 auto Polynomial<T>::taylor(const Vector<T> &xa, const T &x) const -> Vector<T> {
   auto size = xa.size();
-  auto c = Vector<T>(size);
+  Vector<T> c = Vector<T>::Zero(size);
   auto w = Vector<T>(size);
   w(size - 1) = T(1);
   c(0) = work_(0);
-- 
2.43.0


From 7faf03d837b4cdcc59559e2effeb8ca9d697978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 63/83] fix: use the slopes of the right intervals in the Akima
 interpolation

---
 .../pyinterp/detail/interpolation/akima.hpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 2a7feb5..79cc5a6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -74,7 +74,7 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
   boundary_condition(m, size);
 
   // Compute the spline slopes of the lines between the points.
-  for (Eigen::Index ix = 2; ix < size - 2; ++ix) {
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto denominator =
         std::abs(m[ix + 1] - m[ix]) + std::abs(m[ix - 1] - m[ix - 2]);
     if (denominator != 0) {
@@ -85,10 +85,6 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
       s_(ix) = (m[ix - 1] + m[ix]) * 0.5;
     }
   }
-  s_(0) = m[0];
-  s_(1) = (m[0] + m[2]) * 0.5;
-  s_(size - 2) = (m[size - 3] + m[size - 1]) * 0.5;
-  s_(size - 1) = m[size - 1];
 }
 
 template <typename T>
@@ -103,8 +99,10 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
   const auto h = x - xa(i0);
   const auto ai = ya(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  // The slopes follow the two extra points added at the beginning.
+  const auto mi = m_[i0 + 2];
+  const auto ci = (3 * mi - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * mi) / (dx * dx);
   return ai + h * (bi + h * (ci + h * di));
 }
 
@@ -119,8 +117,10 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
   const auto dx = xa(i1) - xa(i0);
   const auto h = x - xa(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  // The slopes follow the two extra points added at the beginning.
+  const auto mi = m_[i0 + 2];
+  const auto ci = (3 * mi - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * mi) / (dx * dx);
   return bi + h * (2 * ci + h * 3 * di);
 }
 
-- 
2.43.0


From 6a59536a1e42c979b8ac71a916da28e1d9361699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 64/83] fix: interpolate between the last and the first points
 of a circular axis

---
 src/pyinterp/core/include/pyinterp/bivariate.hpp     | 4 +++-
 src/pyinterp/core/include/pyinterp/quadrivariate.hpp | 4 +++-
 src/pyinterp/core/include/pyinterp/trivariate.hpp    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index 81ede2c..f1382a1 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -84,9 +84,11 @@ inline auto _bivariate(
     auto [iy0, iy1] = *y_indexes;
 
     auto x0 = x_axis(ix0);
+    // On a circle, the first point of the axis follows the last one.
+    auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
     auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
     return interpolator->evaluate(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0)),
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index 02bb5a4..7084f16 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -63,9 +63,11 @@ inline auto _quadrivariate(
 
     // The fourth coordinate is not used by the 3D interpolator.
     auto x0 = x_axis(ix0);
+    // On a circle, the first point of the axis follows the last one.
+    auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
     auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     auto u0 = pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0, iu0)),
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 38adc74..c907a75 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -43,9 +43,11 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
 
     // The fourth coordinate is not used by the 3D interpolator.
     auto x0 = x_axis(ix0);
+    // On a circle, the first point of the axis follows the last one.
+    auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
     auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     return pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0)),
-- 
2.43.0


From 4f3f7df1f9436f215adddf12a55e495fdea6cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 65/83] fix: compare the distances to far dates without
 overflow

---
 .../core/include/pyinterp/detail/math/nearest.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
index 0f3456c..b8465cd 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
@@ -17,10 +17,10 @@ namespace pyinterp::detail::math {
 template <typename T, typename U = T>
 constexpr auto nearest(const T &x, const T &x0, const T &x1, const U &y0,
                        const U &y1) noexcept -> U {
-  // we use a comparable distance, there's no need to calculate the square root
-  // here
-  auto dx0 = sqr(x0 - x);
-  auto dx1 = sqr(x1 - x);
+  // The distances are not squared: the square of a difference between two dates
+  // does not always fit in 64 bits.
+  auto dx0 = x0 < x ? x - x0 : x0 - x;
+  auto dx1 = x1 < x ? x - x1 : x1 - x;
 
   return dx0 < dx1 ? y0 : y1;
 }
-- 
2.43.0


From f709b12a3384bba7f401a5e6c89f4a6b560f1c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 66/83] fix: mirror the indexes around axes smaller than the
 window

---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index a8a919b..37cb39e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -404,7 +404,7 @@ class Axis {
               before = math::remainder(len + before, len);
               break;
             case ::pyinterp::axis::kSym:
-              before = math::remainder(-before, len);
+              before = mirror(before, len);
               break;
             default:
               return {};
@@ -424,7 +424,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = len - 2 - math::remainder(after - len, len);
+              after = mirror(after, len);
               break;
             default:
               return {};
@@ -481,6 +481,16 @@ class Axis {
   std::unique_ptr<axis::container::Abstract<T>> axis_{
       std::make_unique<axis::container::Undefined<T>>()};
 
+  /// Index of the element seen at the given index when the axis is mirrored on
+  /// its first and last elements.
+  [[nodiscard]] static constexpr auto mirror(const int64_t index,
+                                             const int64_t size) noexcept
+      -> int64_t {
+    const auto last = size - 1;
+    const auto result = math::remainder(index, 2 * last);
+    return result <= last ? result : 2 * last - result;
+  }
+
   /// Clone the axis container
   [[nodiscard]] inline auto clone() const
       -> std::unique_ptr<axis::container::Abstract<T>> {
-- 
2.43.0


From f949509114135893adbdbfe582014c146eac9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 67/83] fix: handle the descending axes of a circle

---
 .../core/include/pyinterp/bivariate.hpp       |  2 +-
 .../core/include/pyinterp/detail/axis.hpp     | 26 ++++++++++++++++---
 .../core/include/pyinterp/quadrivariate.hpp   |  2 +-
 .../core/include/pyinterp/trivariate.hpp      |  2 +-
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index f1382a1..f005a63 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -76,7 +76,7 @@ inline auto _bivariate(
     const Axis<double> &x_axis, const Axis<double> &y_axis,
     const BivariateInterpolator<Point, Coordinate> *interpolator,
     const bool bounds_error) -> Coordinate {
-  auto x_indexes = x_axis.find_indexes(x);
+  auto x_indexes = x_axis.find_cell(x);
   auto y_indexes = y_axis.find_indexes(y);
 
   if (x_indexes.has_value() && y_indexes.has_value()) {
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 37cb39e..cb3bbc3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -295,9 +295,9 @@ class Axis {
     coordinate = normalize_coordinate(coordinate);
     auto result = axis_->find_index(coordinate, bounded);
     if (result == -1 && is_circle_) {
-      result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
-                   ? this->size() - 1
-                   : 0;
+      const auto max_is_nearest =
+          (coordinate - max_value()) < (min_value() + 360 - coordinate);
+      result = max_is_nearest == is_ascending() ? this->size() - 1 : 0;
     }
     return result;
   }
@@ -353,6 +353,24 @@ class Axis {
     return std::optional<std::tuple<int64_t, int64_t>>{};
   }
 
+  /// Given a coordinate position, find grids elements around it. This function
+  /// is identical to "find_indexes" except that, between the last and the first
+  /// points of a descending axis representing a circle, the first element
+  /// returned is the one that precedes the coordinate on the circle.
+  ///
+  /// @param coordinate position in this coordinate system
+  /// @return None if coordinate is outside the axis definition domain otherwise
+  /// the tuple (i0, i1)
+  [[nodiscard]] auto find_cell(const T coordinate) const
+      -> std::optional<std::tuple<int64_t, int64_t>> {
+    auto result = find_indexes(coordinate);
+    if (result && is_circle_ && !is_ascending() && std::get<1>(*result) == 0 &&
+        normalize_coordinate(coordinate) > max_value()) {
+      std::swap(std::get<0>(*result), std::get<1>(*result));
+    }
+    return result;
+  }
+
   /// Create a table of "size" indices located on either side of the required
   /// position.
   ///
@@ -526,7 +544,7 @@ class Axis {
         auto increment = (axis_->back() - axis_->front()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
-                               circle_) <= increment;
+                               circle_) <= std::fabs(increment);
       }
     }
   }
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index 7084f16..510f524 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -49,7 +49,7 @@ inline auto _quadrivariate(
     const detail::math::z_method_t<Coordinate, Coordinate>
         &u_interpolation_method,
     const bool bounds_error) -> Coordinate {
-  auto x_indexes = x_axis.find_indexes(x);
+  auto x_indexes = x_axis.find_cell(x);
   auto y_indexes = y_axis.find_indexes(y);
   auto z_indexes = z_axis.find_indexes(z);
   auto u_indexes = u_axis.find_indexes(u);
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index c907a75..6b0f092 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -32,7 +32,7 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
                         const detail::math::z_method_t<AxisType, Coordinate>
                             &z_interpolation_method,
                         const bool bounds_error) -> Coordinate {
-  auto x_indexes = x_axis.find_indexes(x);
+  auto x_indexes = x_axis.find_cell(x);
   auto y_indexes = y_axis.find_indexes(y);
   auto z_indexes = z_axis.find_indexes(z);
 
-- 
2.43.0


From 32da450218e8d4f4bc44a7de425d49cc682c2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 68/83] fix: find no element around an undefined coordinate

---
 .../core/include/pyinterp/detail/axis.hpp        | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index cb3bbc3..1b743a2 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -274,6 +274,9 @@ class Axis {
   /// @return index of the grid point containing it or -1 if outside grid area
   [[nodiscard]] constexpr auto find_index(const T coordinate,
                                           const bool bounded) const -> int64_t {
+    if (is_undefined(coordinate)) {
+      return -1;
+    }
     return axis_->find_index(normalize_coordinate(coordinate), bounded);
   }
 
@@ -292,6 +295,9 @@ class Axis {
   [[nodiscard]] constexpr auto find_nearest_index(T coordinate,
                                                   const bool bounded) const
       -> int64_t {
+    if (is_undefined(coordinate)) {
+      return -1;
+    }
     coordinate = normalize_coordinate(coordinate);
     auto result = axis_->find_index(coordinate, bounded);
     if (result == -1 && is_circle_) {
@@ -313,6 +319,9 @@ class Axis {
   /// the tuple (i0, i1)
   [[nodiscard]] auto find_indexes(T coordinate) const
       -> std::optional<std::tuple<int64_t, int64_t>> {
+    if (is_undefined(coordinate)) {
+      return {};
+    }
     coordinate = normalize_coordinate(coordinate);
     auto length = size();
     auto i0 = find_index(coordinate, false);
@@ -499,6 +508,13 @@ class Axis {
   std::unique_ptr<axis::container::Abstract<T>> axis_{
       std::make_unique<axis::container::Undefined<T>>()};
 
+  /// True if the coordinate is undefined (NaN): no element of the axis is close
+  /// to it.
+  [[nodiscard]] static constexpr auto is_undefined(const T coordinate) noexcept
+      -> bool {
+    return coordinate != coordinate;
+  }
+
   /// Index of the element seen at the given index when the axis is mirrored on
   /// its first and last elements.
   [[nodiscard]] static constexpr auto mirror(const int64_t index,
-- 
2.43.0


From e7255146f877cfae4ec8266de8e2711816574a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 69/83] fix: push the samples in the nearest bin of a circle

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 6 +++---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index e4759ed..dafa42a 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -295,8 +295,8 @@ class Binning2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             acc_(ix, iy)(value);
@@ -412,7 +412,7 @@ class Binning1D : public Binning2D<T> {
         if (!std::isnan(value)) {
           auto xi = _x(idx);
           if (xi >= this->x_min_ && xi <= this->x_max_) {
-            auto ix = x_axis.find_index(xi, true);
+            auto ix = x_axis.find_nearest_index(xi, true);
 
             if (ix != -1) {
               auto weight = weights.has_value() ? _weights(idx) : 1;
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 1b743a2..eb51dbf 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -299,7 +299,7 @@ class Axis {
       return -1;
     }
     coordinate = normalize_coordinate(coordinate);
-    auto result = axis_->find_index(coordinate, bounded);
+    auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
       const auto max_is_nearest =
           (coordinate - max_value()) < (min_value() + 360 - coordinate);
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index c53a5a4..352b9c7 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -93,8 +93,8 @@ class Histogram2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             histogram_(ix, iy)(value);
-- 
2.43.0


From 14aeef021de6e921e57746c5c193aa190ea4d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 70/83] fix: keep the normalised angles inside the circle

---
 src/pyinterp/core/include/pyinterp/detail/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math.hpp b/src/pyinterp/core/include/pyinterp/detail/math.hpp
index a233c4b..841b063 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math.hpp
@@ -127,7 +127,10 @@ constexpr auto remainder(const T &x, const T &y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T &x, const T &min,
                                const T &circle) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  // An angle slightly smaller than the minimum is rounded to the end of the
+  // circle, which is its origin.
+  auto result = remainder(x - min, circle) + min;
+  return result < min + circle ? result : min;
 }
 
 /// Evaluate the sine function with the argument in degrees
-- 
2.43.0


From 37642b423eb919cb4925a3494b82bfc2e9a88c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 71/83] fix: share the samples between the last and the first
 bins of a circle

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index dafa42a..bbefdf8 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -335,7 +335,7 @@ class Binning2D {
           continue;
         }
 
-        auto x_indexes = x_axis.find_indexes(_x(idx));
+        auto x_indexes = x_axis.find_cell(_x(idx));
         auto y_indexes = y_axis.find_indexes(_y(idx));
 
         if (x_indexes.has_value() && y_indexes.has_value()) {
@@ -343,6 +343,8 @@ class Binning2D {
           auto [iy0, iy1] = *y_indexes;
 
           auto x0 = x_axis(ix0);
+          // On a circle, the first point of the axis follows the last one.
+          auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
               Point<double>(x_axis.is_angle()
@@ -351,7 +353,7 @@ class Binning2D {
                                 : _x(idx),
                             _y(idx)),
               Point<double>(x0, y_axis(iy0)),
-              Point<double>(x_axis(ix1), y_axis(iy1)), strategy);
+              Point<double>(x1, y_axis(iy1)), strategy);
 
           update_acc(ix0, iy0, value, static_cast<T>(std::get<0>(weights)));
           update_acc(ix0, iy1, value, static_cast<T>(std::get<1>(weights)));
-- 
2.43.0


From a697854d86e45356287b5c52948bda1242b37d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:31 +0000
Subject: [PATCH 72/83] fix: weigh the samples on the points of the grid in the
 linear binning

---
 src/pyinterp/core/include/pyinterp/detail/math/binning.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
index 55888ea..9b46dbd 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
@@ -24,16 +24,17 @@ inline auto calculate_area(boost::geometry::model::polygon<Point<T>> &polygon,
 }
 
 /// Calculate the area of a polygon. If the area is less than one epsilon, the
-/// calculated area is set to zero.
+/// calculated area is set to zero. The area of a polygon covering the whole
+/// cell may exceed, because of rounding, the area of the cell.
 template <template <class> class Point, typename Strategy, typename T>
 inline auto calculate_and_normalize_area(
     boost::geometry::model::polygon<Point<T>> &polygon,
     const Strategy &strategy, const double total_area) -> T {
   auto result = calculate_area<Point, Strategy, T>(polygon, strategy);
-  if (result > total_area || std::fabs(result) < 1e-12) {
+  if (result > total_area * (1 + 1e-6) || std::fabs(result) < 1e-12) {
     result = 0;
   }
-  return result;
+  return result > total_area ? static_cast<T>(total_area) : result;
 }
 
 }  // namespace detail
-- 
2.43.0


From 74625f21a26670b581536753e8c745881ceb827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:42 +0000
Subject: [PATCH 73/83] fix: flip once the axes given for several dimensions of
 a grid

---
 src/pyinterp/grid.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/grid.py b/src/pyinterp/grid.py
index 1119313..0634ccb 100644
--- a/src/pyinterp/grid.py
+++ b/src/pyinterp/grid.py
@@ -75,12 +75,17 @@ class Grid2D:
             inplace = increasing_axes == 'inplace'
             # Tuple does not support item assignment
             args = list(args)  # type: ignore[assignment]
+            descending = [
+                isinstance(item, (core.Axis, core.TemporalAxis))
+                and not item.is_ascending() for item in args
+            ]
             for idx, item in enumerate(args):
-                if isinstance(item,
-                              (core.Axis,
-                               core.TemporalAxis)) and not item.is_ascending():
-                    args[idx] = item.flip(  # type: ignore[index]
-                        inplace=inplace)
+                if descending[idx]:
+                    # The same axis may be given for several dimensions: it is
+                    # flipped once.
+                    if not item.is_ascending():
+                        args[idx] = item.flip(  # type: ignore[index]
+                            inplace=inplace)
                     args[-1] = numpy.flip(  # type: ignore[index]
                         args[-1], axis=idx)
         self._instance = getattr(core, _class)(*args)
-- 
2.43.0


From 6ae883c8de9523d8e48fbf11a20c4d4854c50334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:53 +0000
Subject: [PATCH 74/83] fix: keep the axes as they are when a grid that orders
 them is refused

---
 src/pyinterp/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/grid.py b/src/pyinterp/grid.py
index 0634ccb..11091ca 100644
--- a/src/pyinterp/grid.py
+++ b/src/pyinterp/grid.py
@@ -73,6 +73,8 @@ class Grid2D:
                 raise ValueError('increasing_axes '
                                  f'{increasing_axes!r} is not defined')
             inplace = increasing_axes == 'inplace'
+            # Arguments that are refused must not modify the axes
+            getattr(core, _class)(*args)
             # Tuple does not support item assignment
             args = list(args)  # type: ignore[assignment]
             descending = [
-- 
2.43.0


From 2030780e17f9ffe961d30fa5f5e933e274a1a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 75/83] fix: keep the type of the geodetic spatial indexes that
 are copied

---
 src/pyinterp/geodetic/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index f972c8e..474d84d 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -172,6 +172,12 @@ class RTree(geodetic.RTree):
     def __init__(self, spheroid: Spheroid | None = None) -> None:
         super().__init__(spheroid)
 
+    def __copy__(self) -> RTree:
+        """Implements the shallow copy operation."""
+        result = RTree.__new__(RTree)
+        result.__setstate__(self.__getstate__())
+        return result
+
     def inverse_distance_weighting(
             self,
             lon: numpy.ndarray,
-- 
2.43.0


From c5c5377bb7928f66b785c3096fc81381f9497153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 76/83] fix: keep the type of the 1D binnings that are copied

---
 src/pyinterp/core/module/binning.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..4fafbee 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,13 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
-- 
2.43.0


From 3815824f08ec56cf5d34e25334c0cf460f8eb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:24 +0000
Subject: [PATCH 77/83] fix: keep the order of the dimensions of the 4D data
 arrays

The Z and U axes were taken from a set: which dimension was which depended
on the hashes of their names, which change from one process to the next.
---
 src/pyinterp/backends/xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 84539d8..43aa5c5 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -347,7 +347,7 @@ class Grid4D(grid.Grid4D):
                  increasing_axes: bool = False,
                  geodetic: bool = True):
         x, y = _dims_from_data_array(data_array, geodetic, ndims=4)
-        z, u = tuple(set(data_array.dims) - {x, y})
+        z, u = (dim for dim in data_array.dims if dim not in (x, y))
 
         # Should the grid manage a time axis?
         self._datetime64 = None
-- 
2.43.0


From fbab24ecf847710a5cd58d21877c5ab295294e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 78/83] fix: give the coordinates of the geohash grids their
 units

The longitudes were in degrees north and the latitudes in degrees east: the
grids built from these arrays exchanged them.
---
 src/pyinterp/_geohash.py          | 4 ++--
 src/pyinterp/geohash/converter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/_geohash.py b/src/pyinterp/_geohash.py
index 637ee69..013f2c1 100644
--- a/src/pyinterp/_geohash.py
+++ b/src/pyinterp/_geohash.py
@@ -70,13 +70,13 @@ class GeoHash(BaseGeoHash):
                     xarray.DataArray(
                         lon,
                         dims=('lon', ),
-                        attrs={'units': 'degrees_north'},
+                        attrs={'units': 'degrees_east'},
                     ),
                     'lat':
                     xarray.DataArray(
                         lat,
                         dims=('lat', ),
-                        attrs={'units': 'degrees_east'},
+                        attrs={'units': 'degrees_north'},
                     ),
                 },
             )
diff --git a/src/pyinterp/geohash/converter.py b/src/pyinterp/geohash/converter.py
index 01d2eee..6f948b3 100644
--- a/src/pyinterp/geohash/converter.py
+++ b/src/pyinterp/geohash/converter.py
@@ -46,9 +46,9 @@ def to_xarray(hashes: numpy.ndarray, data: numpy.ndarray) -> xarray.DataArray:
             'lon':
             xarray.DataArray(x_axis,
                              dims=('lon', ),
-                             attrs={'units': 'degrees_north'}),
+                             attrs={'units': 'degrees_east'}),
             'lat':
             xarray.DataArray(y_axis,
                              dims=('lat', ),
-                             attrs={'units': 'degrees_east'})
+                             attrs={'units': 'degrees_north'})
         })
-- 
2.43.0


From 21c3707e18c1ff6aad8c2aba4891b7447f1e7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:32 +0000
Subject: [PATCH 79/83] fix: keep the coordinates in their cell when they are
 put back on the circle

A coordinate one or several turns away from a point of the axis could be
rounded just before the first point of its cell, that is to say nearly one
turn after it: the value was extrapolated.
---
 src/pyinterp/core/include/pyinterp/binning.hpp  |  5 +----
 .../core/include/pyinterp/bivariate.hpp         |  2 +-
 .../core/include/pyinterp/detail/axis.hpp       | 17 +++++++++++++++++
 .../core/include/pyinterp/quadrivariate.hpp     |  2 +-
 .../core/include/pyinterp/trivariate.hpp        |  2 +-
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index bbefdf8..8f74039 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -347,10 +347,7 @@ class Binning2D {
           auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
-              Point<double>(x_axis.is_angle()
-                                ? detail::math::normalize_angle<double>(
-                                      _x(idx), x0, 360.0)
-                                : _x(idx),
+              Point<double>(x_axis.normalize_coordinate(_x(idx), x0, x1),
                             _y(idx)),
               Point<double>(x0, y_axis(iy0)),
               Point<double>(x1, y_axis(iy1)), strategy);
diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index f005a63..4763541 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -86,7 +86,7 @@ inline auto _bivariate(
     auto x0 = x_axis(ix0);
     // On a circle, the first point of the axis follows the last one.
     auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
+    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0, x1), y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
     auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index eb51dbf..dfa56e4 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -264,6 +264,23 @@ class Axis {
     return normalize_coordinate(coordinate, axis_->min_value());
   }
 
+  /// Returns the normalized value of a coordinate located between two elements
+  /// of the axis: rounding does not move it out of this interval.
+  ///
+  /// @param coordinate position in this coordinate system
+  /// @param x0 first element of the interval
+  /// @param x1 last element of the interval, normalized with respect to "x0".
+  [[nodiscard]] constexpr auto normalize_coordinate(const T coordinate,
+                                                    const T x0,
+                                                    const T x1) const noexcept
+      -> T {
+    auto result = normalize_coordinate(coordinate, x0);
+    if (is_angle() && result > x1) {
+      return result - x1 < x0 + circle_ - result ? x1 : x0;
+    }
+    return result;
+  }
+
   /// Given a coordinate position, find what axis element contains it.
   ///
   /// @param coordinate position in this coordinate system
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index 510f524..b6a1932 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -65,7 +65,7 @@ inline auto _quadrivariate(
     auto x0 = x_axis(ix0);
     // On a circle, the first point of the axis follows the last one.
     auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0, x1), y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
     auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 6b0f092..10f8ad4 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -45,7 +45,7 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
     auto x0 = x_axis(ix0);
     // On a circle, the first point of the axis follows the last one.
     auto x1 = x_axis.normalize_coordinate(x_axis(ix1), x0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0, x1), y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
     auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
-- 
2.43.0


From eab9d7aacea8da0fa7a4f9fa63f054312689b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:26 +0000
Subject: [PATCH 80/83] fix: accept the Cauchy covariance function

It is documented and implemented, but its name was refused.
---
 src/pyinterp/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..fdc7594 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
-- 
2.43.0


From f81d425d847d85dd448cc4a363b6f268160a6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:29 +0000
Subject: [PATCH 81/83] fix: find the Whittle-Matern covariance function

Its name was turned into one that the enumeration does not have.
---
 src/pyinterp/interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index fdc7594..fb6a16a 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -109,7 +109,9 @@ def _core_covariance_function(
             'whittle_matern',
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
-    covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
+    # The order of the Matern functions is separated from their name.
+    sep = '_' if covariance.startswith('matern_') else ''
+    covariance = sep.join(item.capitalize() for item in covariance.split('_'))
     return getattr(core.CovarianceFunction, covariance)
 
 
-- 
2.43.0


From c876e96eaf25486621ee57f29212d5aec737afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:10 +0000
Subject: [PATCH 82/83] fix: give the documented default argument to the
 Lanczos window

The default value was computed and checked, then None was given to the core,
which read it as zero: every estimate was undefined.
---
 src/pyinterp/geodetic/__init__.py | 4 ++--
 src/pyinterp/interface.py         | 7 +++++++
 src/pyinterp/rtree.py             | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index 474d84d..8f0855b 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -359,5 +359,5 @@ class RTree(geodetic.RTree):
             calculation.
         """
         return super().window_function(
-            lon, lat, radius, k, interface._core_window_function(wf, arg), arg,
-            within, num_threads)
+            lon, lat, radius, k, interface._core_window_function(wf, arg),
+            interface._core_window_function_arg(wf, arg), within, num_threads)
diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index fb6a16a..4020879 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -23,6 +23,7 @@ __all__ = [
     '_core_function',
     '_core_radial_basis_function',
     '_core_window_function',
+    '_core_window_function_arg',
 ]
 
 
@@ -171,3 +172,9 @@ def _core_window_function(wf: str | None,
     wf = ''.join(item.capitalize() for item in wf.split('_'))
     wf = wf.replace('Swot', 'SWOT')
     return getattr(core.WindowFunction, wf)
+
+
+def _core_window_function_arg(wf: str | None,
+                              arg: float | None) -> float | None:
+    """Get the argument of the window function, or its default value."""
+    return 1 if wf == 'lanczos' and arg is None else arg
diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index 410221a..8e749f8 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -392,7 +392,7 @@ class RTree:
         """
         return self._instance.window_function(
             coordinates, radius, k, interface._core_window_function(wf, arg),
-            arg, within, num_threads)
+            interface._core_window_function_arg(wf, arg), within, num_threads)
 
     def universal_kriging(
             self,
-- 
2.43.0


From be110465ead056337ed5b315a5e1347c4aff39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:03:13 +0000
Subject: [PATCH 83/83] fix: refuse boxes whose corners delimit no grid of
 geohash cells

---
 src/pyinterp/core/lib/geohash/int64.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 3cad89b..65c2d4a 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <string>
 
 // Ref: https://mmcloughlin.com/posts/geohash-assembly
@@ -332,14 +333,19 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
   auto lat_offset = box.max_corner().lat() == 90 ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
-  auto lon_step = static_cast<size_t>(
+  auto lon_step = static_cast<int64_t>(
       std::round((box_ne.min_corner().lon() - box_sw.min_corner().lon()) /
                  (std::get<0>(lng_lat_err))));
-  auto lat_step = static_cast<size_t>(
+  auto lat_step = static_cast<int64_t>(
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
-  return std::make_tuple(hash_sw, lon_step + lon_offset, lat_step + lat_offset);
+  if (lon_step + lon_offset < 0 || lat_step + lat_offset < 0) {
+    throw std::invalid_argument(
+        "the corners of the box do not delimit a grid of geohash cells");
+  }
+  return std::make_tuple(hash_sw, static_cast<size_t>(lon_step + lon_offset),
+                         static_cast<size_t>(lat_step + lat_offset));
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


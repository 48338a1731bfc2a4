From 5cb42e666055a59035e2df1d316f1021edffe383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 01/65] fix: keep the space dimension when a Serie is assigned,
 cloned or built with toSerie

---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..7cad1e2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,11 +59,12 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
@@ -142,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From bcab2bcaa8f8d0f4e0a9575ddf36e43fd9302c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 02/65] fix: reject index == size() in Serie::scalar instead of
 reading past the end

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7cad1e2..7fc9873 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -96,7 +96,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From 34c5a6d17997643a7ddd6dbdc18c277b1f4133cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 03/65] fix: do not divide by zero when a Serie is built from
 values with itemSize 0

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7fc9873..99b3e8d 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -38,14 +38,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = Array(values);
 }
 
-- 
2.43.0


From f8139502eb246e472d2ccc0ef1c9a7c3ba9b1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 04/65] fix: norm2 wrote past a one-element buffer and did not
 square scalar items

---
 src/functional/algebra/norm.cxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..b184499 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -38,11 +38,7 @@ Serie norm2(const Serie &s) {
         return Serie();
     }
 
-    if (s.itemSize() == 1) {
-        return s.clone();
-    }
-
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From cc61c325247cc6ef5c998253fc472b66dee7f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 05/65] fix: geo::areas divides the norms by 2 (2 was taken as
 an empty Serie)

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 46bc244707f642e85df96d29419dfa8696403dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 06/65] fix: Vector::norm accumulated the squares in an int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From 3dbea5b735d7cbd7a1ad823451f5b5b1d1c73936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 07/65] fix: Matrix keeps its coefficients (results referred to
 destroyed temporaries)

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 3285e3c89f04887304070bc4bb67e89e9695d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 08/65] fix: sort ignored the comparator for scalar Series

---
 include/dataframe/functional/utils/sort.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..233107a 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -40,7 +40,16 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        std::sort(values.begin(), values.end(), [&comp](double a, double b) {
+            // The comparator works on items, so an item is either presented
+            // as an Array of size 1 or as a double
+            if constexpr (std::is_invocable_v<Comparator &, const Array &,
+                                              const Array &>) {
+                return static_cast<bool>(comp(Array{a}, Array{b}));
+            } else {
+                return static_cast<bool>(comp(a, b));
+            }
+        });
         return Serie(1, values);
     } else {
         std::vector<Array> values;
@@ -61,8 +70,10 @@ Serie sort(const Serie &serie, Comparator &&comp) {
 }
 
 inline Serie sort(const Serie &serie) {
-    if (serie.itemSize() == 1) {
-        return sort(serie, std::less<>{});
+    if (serie.isValid() && serie.itemSize() == 1) {
+        Array values = serie.asArray();
+        std::sort(values.begin(), values.end());
+        return Serie(1, values);
     }
     return sort(serie, [](const Array &a, const Array &b) {
         for (size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From ed8a156a02be60a82a592d23a11e03e51663ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 09/65] fix: mapping several empty Series read their (missing)
 first item

---
 include/dataframe/functional/map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..5bcc4ee 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -119,6 +119,9 @@ auto map(F &&callback, const Args &...args) {
                       "All arguments after callback must be Series");
 
         auto counts = utils::countAndCheck(args...);
+        if (counts[0] == 0) {
+            return Serie(0, 0);
+        }
 
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
-- 
2.43.0


From f8b37901c362723262e3654f84996809206b1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 10/65] fix: dot with a constant vector read the first item of
 an empty Serie

---
 src/functional/algebra/dot.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..d5958ef 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -39,7 +39,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From 345c444fbba3bc1411435e215b92872da017675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 11/65] fix: dot and cross read out of bounds when the two
 Series do not match

---
 src/functional/algebra/cross.cxx | 3 +++
 src/functional/algebra/dot.cxx   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..f64feb7 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -39,6 +39,9 @@ Serie cross(const Serie &a, const Serie &b) {
     if (b.itemSize() != 3) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have same count");
+    }
 
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d5958ef..f65a1dc 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,10 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.itemSize() != b.itemSize() || a.count() != b.count()) {
+        throw std::invalid_argument(
+            "dot: series must have same itemSize and count");
+    }
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
-- 
2.43.0


From bdaefeb0b3302b6b9ef9796f9289426b551ecd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 12/65] fix: quantile of an empty Serie read out of bounds

---
 src/functional/stats/quantile.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..1f718f8 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -42,6 +42,9 @@ double quantile(const Serie &s, double q) {
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile of an empty series");
+    }
 
     auto newSerie = df::utils::sort(s);
     const Array &sorted = newSerie.asArray();
-- 
2.43.0


From 2bed0481fa92d99adc103475335506e49b417fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 13/65] fix: normalize of an empty scalar Serie read out of
 bounds

---
 src/functional/math/normalize.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..ca37502 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -37,6 +37,10 @@ Serie normalize(const Serie &serie) {
         throw std::invalid_argument("Serie is invalid");
     }
 
+    if (serie.count() == 0) {
+        return serie.clone();
+    }
+
     if (serie.itemSize() == 1) {
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
-- 
2.43.0


From 7f0fa13184c7eb5db4f41eca9d6b4462ce6b6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 14/65] fix: minMax of a scalar Serie holding only infinities

---
 src/functional/math/minMax.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functional/math/minMax.cxx b/src/functional/math/minMax.cxx
index 8804042..c692b87 100644
--- a/src/functional/math/minMax.cxx
+++ b/src/functional/math/minMax.cxx
@@ -37,8 +37,8 @@ MinMax minMax(const Serie &serie) {
 
     if (serie.itemSize() == 1) {
         // Scalar case
-        double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::lowest();
+        double min = std::numeric_limits<double>::infinity();
+        double max = -std::numeric_limits<double>::infinity();
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             double v = serie.template get<double>(i);
-- 
2.43.0


From 4d22fb93e957b0cc16d464f6f2d4bd94c6fecd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 15/65] fix: bins of constant, empty or below range values

---
 src/functional/stats/bins.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..9e27c28 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -31,6 +31,10 @@ namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
     auto [min, max] = math::minMax(serie);
+    if (min.empty()) {
+        // Nothing to count (empty Serie)
+        return bins(serie, nb, 0, 0);
+    }
     return bins(serie, nb, min[0], max[0]);
 }
 
@@ -48,16 +52,18 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
+        // All the values fall into the first bin when the range is empty
+        double i = (size == 0 && v == start) ? 0
+                                             : std::floor((v - start) / size);
         if (i >= nb) {
             i = nb - 1;
         }
-        if (i < 0 || i >= nb) {
+        if (!(i >= 0)) {
             throw std::invalid_argument(
                 "bins: index for bin (" + std::to_string(i) +
                 ") out of bounds (0, " + std::to_string(nb) + ")");
         }
-        b[i]++;
+        b[static_cast<uint32_t>(i)]++;
     });
 
     return Serie(1, b);
-- 
2.43.0


From babba99f7f6c0b3f7a83dbb5d3e4cd983ea0df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 16/65] fix: partition_n of a single Serie divided by zero for
 n = 0

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..be50e82 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 971c0cb0978d9adcc92f5ae09b7024a5c50a84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 17/65] fix: Components served wrong or out of bounds
 components

---
 src/attributes/Components.cxx | 43 +++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..3412589 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -25,6 +25,7 @@
 #include <dataframe/utils/nameOfSerie.h>
 // #include <dataframe/functional/apply.h>
 #include <algorithm>
+#include <cctype>
 #include <dataframe/utils/utils.h>
 
 template <typename T, typename F> auto _map(const std::vector<T> &vec, F &&f) {
@@ -50,6 +51,15 @@ static Strings smatrix3Names{"xx", "xy", "xz", "yy", "yz", "zz"};
 static Strings matrix3Names{"xx", "xy", "xz", "yx", "yy",
                             "yz", "zx", "zy", "zz"};
 
+// True if the components of the serie are named using letters
+static bool hasLetters(const Serie &serie) {
+    if (serie.dimension() == 2) {
+        return serie.itemSize() >= 2 && serie.itemSize() <= 4;
+    }
+    return serie.itemSize() == 3 || serie.itemSize() == 6 ||
+           serie.itemSize() == 9;
+}
+
 Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
                           const Serie &serie, const String &name) const {
     if (name == "positions" || name == "indices") {
@@ -94,7 +104,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
         names.push_back(name + std::to_string(i));
     }
 
@@ -114,7 +124,8 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
+                if (serie.itemSize() == vector2Names.size() &&
+                    name == newName + vector2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -122,7 +133,8 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
+                if (serie.itemSize() == vector3Names.size() &&
+                    name == newName + vector3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -137,14 +149,16 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
+                if (serie.itemSize() == smatrix2Names.size() &&
+                    name == newName + smatrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
+                if (serie.itemSize() == matrix2Names.size() &&
+                    name == newName + matrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -152,14 +166,16 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
+                if (serie.itemSize() == smatrix3Names.size() &&
+                    name == newName + smatrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
+                if (serie.itemSize() == matrix3Names.size() &&
+                    name == newName + matrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -169,10 +185,13 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
+    for (size_t pos = name.size(); pos > 1 && std::isdigit(name[pos - 1]);) {
+        newName = name.substr(0, --pos);
+        serie = dataframe[newName];
+        if (!serie.isValid() || hasLetters(serie)) {
+            continue;
+        }
+        for (uint32_t i = 0; i < serie.itemSize(); ++i) {
             if (name == newName + std::to_string(i)) {
                 return serie.map([i](const Array &item, uint32_t index) {
                     return Array{item[i]};
@@ -184,4 +203,4 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     return Serie();
 }
 
-} // namespace df
\ No newline at end of file
+} // namespace df
-- 
2.43.0


From 4c817f766cb12bcadf665da157dfdee770bb1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 18/65] fix: EigenValues and EigenVectors never served the
 Series they advertise

---
 src/attributes/EigenValues.cxx  |  7 ++++---
 src/attributes/EigenVectors.cxx | 16 +++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..9b4aced 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -38,7 +38,7 @@ namespace df
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 1)) {
             return Strings();
         }
-        if (serie.dimension() == 3 && (serie.itemSize() != 6 || itemSize != 1)) {
+        if (serie.dimension() != 2 && (serie.itemSize() != 6 || itemSize != 1)) {
             return Strings();
         }
 
@@ -50,12 +50,13 @@ namespace df
 
     Serie EigenValues::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 1) {
+        if (itemSize != 1 || name.empty()) {
             return Serie();
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        // The last character is the (1-based) rank
+        uint id = static_cast<unsigned char>(name.back()) - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..219b25e 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -38,7 +38,7 @@ namespace df
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 2)) {
             return Strings();
         }
-        if (serie.dimension() == 3 && (serie.itemSize() != 6 || itemSize != 3)) {
+        if (serie.dimension() != 2 && (serie.itemSize() != 6 || itemSize != 3)) {
             return Strings();
         }
 
@@ -50,26 +50,27 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
+        if (name.empty()) {
             return Serie();
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        // The last character is the (1-based) rank
+        uint id = static_cast<unsigned char>(name.back()) - '0';
 
         if (serie.isValid() == false) {
             return Serie();
         }
 
         if (serie.dimension() == 2) {
-            if (serie.itemSize() != 3) {
+            if (serie.itemSize() != 3 || itemSize != 2) {
                 return Serie();
             }
             if (id < 1 || id > 2) {
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
@@ -77,8 +78,9 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            auto begin = item.begin() + (id - 1) * itemSize;
+            return Array(begin, begin + itemSize);
         });
     }
 
-- 
2.43.0


From a3aae05c8080d373905a2e0f04531ceec10bf4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 19/65] fix: Normals, Area and Valence were advertised without
 positions or indices

---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..50010e0 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..2e9ad69 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..2334007 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
 
-- 
2.43.0


From 7a049308f40b87ed0bf00fee865123ff83740121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 20/65] fix: Normals and Valence served Series of another
 itemSize than requested

---
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index 2e9ad69..25360a7 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -49,7 +49,7 @@ namespace df
     Serie Normals::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
 
-        if (name != name_) {
+        if (itemSize != 3 || name != name_) {
             return Serie();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index 2334007..a36d9aa 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -48,7 +48,7 @@ namespace df
     Serie Valence::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
 
-        if (name != name_) {
+        if (itemSize != 1 || name != name_) {
             return Serie();
         }
 
-- 
2.43.0


From fce4302d2063235b58ba75ce811d426d04417071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 21/65] fix: Coordinates read out of bounds for 2D positions or
 less than 3 names

---
 src/attributes/Coordinates.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..cfc268f 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,9 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        // One name per available coordinate
+        auto nb = std::min<size_t>(names_.size(), serie.itemSize());
+        return Strings(names_.begin(), names_.begin() + nb);
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
@@ -46,7 +48,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
-- 
2.43.0


From 9d590908f68542f0cb8e64c63e3ae3a66067a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 22/65] fix: Decomposer needs a virtual destructor (the Manager
 deletes them)

---
 include/dataframe/attributes/Decomposer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
-- 
2.43.0


From 53e1907e19888984f59ba28ac26014c8ee8d6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 23/65] fix: Manager::clear leaked its decomposers

---
 src/attributes/Manager.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..7c04451 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -53,6 +53,9 @@ namespace df
 
     void Manager::clear()
     {
+        for (auto d : ds_) {
+            delete d;
+        }
         ds_.clear();
     }
 
-- 
2.43.0


From cfa4cb3ad24899007b33b850387d8cab6b6554d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 24/65] fix: UserDefinedDecomposer referred to a destroyed
 callback

---
 include/dataframe/attributes/UserDefinedDecomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..850c7f7 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,13 +41,13 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        mutable std::decay_t<F> cb_;
     };
 
     // ------------------------------------------------------------
 
     template <typename F>
-    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::move(cb))
+    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::forward<F>(cb))
     {
     }
 
-- 
2.43.0


From 6ffe77f9ef6b90dfbd46368178f5a1a5ed5c68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 25/65] fix: memoize mixed up Series having the same values but
 another layout

---
 include/dataframe/functional/utils/memoize.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..6429265 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -22,6 +22,8 @@
  */
 #pragma once
 #include <dataframe/Serie.h>
+#include <bit>
+#include <cstdint>
 #include <map>
 #include <utility>
 #include <vector>
@@ -48,17 +50,21 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
-    // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
+    // Helper to create cache key from Series: the layout, then the bits of the
+    // values (two different Series never share a key, even with NaN or -0)
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.dimension()};
         for (uint32_t i = 0; i < s.count(); ++i) {
             if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
+                key.push_back(
+                    std::bit_cast<uint64_t>(s.template get<double>(i)));
             } else {
                 const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
+                for (double x : v) {
+                    key.push_back(std::bit_cast<uint64_t>(x));
+                }
             }
         }
         return key;
-- 
2.43.0


From 895fc9672a2da2ecea0c53e2b45114a17cb31d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 26/65] fix: operator<< wrote to cout or cerr instead of the
 given stream

---
 include/dataframe/inline/Serie.hxx | 16 ++++++++--------
 include/dataframe/types.h          | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..eaa7b24 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
     if (s.count() > 0) {
-        std::cerr << "  values   : [";
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..7fba2ad 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,15 +51,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
     if (a.size() > 0) {
+        o << "[";
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -67,8 +67,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From 05ffaf361c5f8c596b0166036098118316418bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 27/65] fix: sub.h redefined the variadic add instead of
 providing the variadic sub

---
 include/dataframe/functional/math/sub.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..0d817f2 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -54,20 +54,10 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
-
-    Serie result = Serie(first.itemSize(), first.count());
-    ((result = sub(result, series)), ...);
-    return result;
+template <typename... Series>
+Serie sub(const Serie &s1, const Serie &s2, const Serie &s3,
+          const Series &...series) {
+    return sub(sub(s1, s2), s3, series...);
 }
 
 MAKE_OP(sub);
-- 
2.43.0


From 56ecc3c2824cdfe1df94adbf12ac25f4f44c6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 28/65] fix: dot.h generated make_det instead of make_dot

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From 3ea8a01afd9bc2fc29654d9b6282aed709a84f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 29/65] fix: Serie::pipe with one operation swapped its
 arguments

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index eaa7b24..ec963a4 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -54,7 +54,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From 6e7e1ac5f2006486aedd8a42ac6071e8a10e82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 30/65] fix: if_then_else did not compile (include path and
 order of the arguments of map)

---
 include/dataframe/functional/conditional/if.h | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..4bd36e2 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,8 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include "../../Serie.h"
+#include "../map.h"
 
 namespace df {
 namespace cond {
@@ -55,13 +56,21 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
-                       true_fn = std::forward<True>(true_fn),
-                       false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
-        return check_fn(value) ? true_fn(value, i, serie)
-                               : false_fn(value, i, serie);
-    });
+    if constexpr (std::is_invocable_v<Check, const Array &>) {
+        return df::map(
+            [&](const Array &value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    } else {
+        return df::map(
+            [&](double value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    }
 }
 
 MAKE_OP(if_then_else);
-- 
2.43.0


From 3a2cc511f7500d6919b76da4832a76f0999803a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 31/65] fix: MAKE_OP adaptors did not compile for operations
 taking the Serie first

---
 include/dataframe/functional/macros.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/macros.h b/include/dataframe/functional/macros.h
index 8098925..4e8e6b4 100644
--- a/include/dataframe/functional/macros.h
+++ b/include/dataframe/functional/macros.h
@@ -41,5 +41,11 @@
     template <typename F> \
     auto make_##op(F &&cb) \
     { \
-        return [cb = std::forward<F>(cb)](const auto &serie) { return op(cb, serie); }; \
+        return [cb = std::forward<F>(cb)](const auto &serie) { \
+            if constexpr (requires { op(cb, serie); }) { \
+                return op(cb, serie); \
+            } else { \
+                return op(serie, cb); \
+            } \
+        }; \
     }
-- 
2.43.0


From cf3435a61514f3b56c61bf7b627da41b0dc00ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 32/65] fix: parallel_execute of an empty Serie threw instead
 of calling the functor

---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..1bddc96 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -69,7 +69,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From ccced54fc586b0789da76d37e331ec9a77e4d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 33/65] fix: parallel_execute.h did not compile on its own
 (concat.h not included)

---
 include/dataframe/functional/utils/parallel_execute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 1bddc96..ba373cf 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
-- 
2.43.0


From 0ff2209d52688b172304f8ae2d8298c401670215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 34/65] fix: parallel_execute.h could not be included before
 partition.h or reject.h

---
 include/dataframe/functional/utils/parallel_execute.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index ba373cf..f27c020 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -31,8 +31,8 @@
 #include <type_traits>
 
 namespace df {
-namespace utils {
 
+// Not in df::utils::details, which would hide df::details in the other headers
 namespace details {
 
 // Helper to detect return type of functor when called with a Serie
@@ -54,6 +54,8 @@ inline constexpr bool returns_serie_v = returns_serie<F>::value;
 
 } // namespace details
 
+namespace utils {
+
 // -----------------------------------------------------------
 
 /**
-- 
2.43.0


From d972313ff43617dd8c933484c2d6cf723759e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 35/65] fix: operations on 2D Series returned 3D Series (space
 dimension lost)

---
 include/dataframe/functional/filter.h            |  8 ++++----
 include/dataframe/functional/find.h              |  2 +-
 include/dataframe/functional/map.h               | 16 ++++++++++------
 include/dataframe/functional/math/add.h          |  4 ++--
 include/dataframe/functional/math/sub.h          |  2 +-
 include/dataframe/functional/merge.h             |  7 ++++---
 include/dataframe/functional/utils/concat.h      |  2 +-
 include/dataframe/functional/utils/partition.h   | 10 ++++++----
 include/dataframe/functional/utils/partition_n.h |  4 ++--
 include/dataframe/functional/utils/reject.h      |  8 ++++----
 include/dataframe/functional/utils/sort.h        |  6 +++---
 include/dataframe/functional/utils/unzip.h       |  2 +-
 include/dataframe/functional/utils/zip.h         |  5 +++--
 src/functional/algebra/eigen.cxx                 |  8 ++++----
 src/functional/math/mult.cxx                     |  2 +-
 15 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index acac4df..e579b83 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -97,7 +97,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -117,7 +117,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -179,7 +179,7 @@ auto filter(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -253,7 +253,7 @@ Series filterAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto filter_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index 0076211..c4fa624 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -106,7 +106,7 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     }
 
     // Create result Serie
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         if (serie.itemSize() == 1) {
             result.template set(i, serie.template get<double>(indices[i]));
diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index 5bcc4ee..1158d80 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -46,7 +46,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 results.push_back(
                     static_cast<double>(cb(serie.template get<double>(i), i)));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Scalar to vector
             if (serie.count() == 0) {
@@ -68,7 +68,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     } else {
         // Input is vector
@@ -81,7 +81,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
             for (uint32_t i = 0; i < serie.count(); ++i) {
                 results.push_back(cb(serie.template get<Array>(i), i));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Vector to vector
             if (serie.count() == 0) {
@@ -103,7 +103,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     }
 }
@@ -123,6 +123,10 @@ auto map(F &&callback, const Args &...args) {
             return Serie(0, 0);
         }
 
+        // The result lives in the same space as the first Serie
+        uint dimension =
+            std::get<0>(std::forward_as_tuple(args...)).dimension();
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
@@ -136,7 +140,7 @@ auto map(F &&callback, const Args &...args) {
             for (uint32_t i = 1; i < counts[0]; ++i) {
                 results.push_back(callback(args.template get<Array>(i)..., i));
             }
-            result = Serie(1, results);
+            result = Serie(1, results, dimension);
         } else {
             // Callback returns Array
             const size_t itemSize = first_result.size();
@@ -154,7 +158,7 @@ auto map(F &&callback, const Args &...args) {
                 flattened.insert(flattened.end(), result_i.begin(),
                                  result_i.end());
             }
-            result = Serie(itemSize, flattened);
+            result = Serie(itemSize, flattened, dimension);
         }
         return result;
 
diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 0e3a843..9de5c04 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -37,7 +37,7 @@ inline Serie add(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
@@ -66,7 +66,7 @@ template <typename... Series> Serie add(const Series &...series) {
 
     auto first = std::get<0>(std::tuple<const Series &...>(series...));
 
-    Serie result = Serie(first.itemSize(), first.count());
+    Serie result = Serie(first.itemSize(), first.count(), first.dimension());
     ((result = add(result, series)), ...);
     return result;
 }
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 0d817f2..61b5ca4 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -36,7 +36,7 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index f7512f2..da3ba73 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -38,7 +38,7 @@ Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     }
 
     if (concatenate) {
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < s1.count(); ++i, ++idx) {
@@ -49,7 +49,7 @@ Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
         }
         return result;
     } else { // Interleave
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
@@ -75,7 +75,8 @@ Serie merge(bool concatenate, const Series &...series) {
 
     uint32_t total_count = (series.count() + ...);
     Serie result(std::get<0>(std::forward_as_tuple(series...)).itemSize(),
-                 total_count);
+                 total_count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     if (concatenate) {
         uint32_t idx = 0;
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..ffc215e 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 45bc1f4..a9b1472 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -56,8 +56,8 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(1, matched_indices.size());
-        Serie unmatched(1, unmatched_indices.size());
+        Serie matched(1, matched_indices.size(), serie.dimension());
+        Serie unmatched(1, unmatched_indices.size(), serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<double>(matched_indices[i]));
@@ -78,8 +78,10 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(serie.itemSize(), matched_indices.size());
-        Serie unmatched(serie.itemSize(), unmatched_indices.size());
+        Serie matched(serie.itemSize(), matched_indices.size(),
+                      serie.dimension());
+        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
+                        serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<Array>(matched_indices[i]));
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index be50e82..9ec7008 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -56,7 +56,7 @@ Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -103,7 +103,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 3171e17..a6bb057 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -46,7 +46,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -66,7 +66,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -95,7 +95,7 @@ auto reject(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -140,7 +140,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto reject_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 233107a..b4ff99c 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -50,7 +50,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
                 return static_cast<bool>(comp(a, b));
             }
         });
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
         values.reserve(serie.count());
@@ -65,7 +65,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         for (const auto &v : values) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
-        return Serie(serie.itemSize(), flattened);
+        return Serie(serie.itemSize(), flattened, serie.dimension());
     }
 }
 
@@ -73,7 +73,7 @@ inline Serie sort(const Serie &serie) {
     if (serie.isValid() && serie.itemSize() == 1) {
         Array values = serie.asArray();
         std::sort(values.begin(), values.end());
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     }
     return sort(serie, [](const Array &a, const Array &b) {
         for (size_t i = 0; i < a.size(); ++i) {
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..21d219c 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -51,7 +51,7 @@ Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
 
     uint32_t currentIndex = 0;
     for (uint32_t itemSize : itemSizes) {
-        Serie s(itemSize, zipped.count());
+        Serie s(itemSize, zipped.count(), zipped.dimension());
         for (uint32_t i = 0; i < zipped.count(); ++i) {
             if (itemSize == 1) {
                 s.setScalar(
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 55e5f07..60513f1 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -63,7 +63,8 @@ template <typename... Series> Serie zip(const Series &...series) {
     const uint32_t totalItemSize = (... + series.itemSize());
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     // Helper to copy values from input Series to result
     auto copyValues = [&result](uint32_t itemIndex, const Serie &s) {
@@ -129,7 +130,7 @@ Serie zipVector(const std::vector<Serie> &series) {
     }
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count, series[0].dimension());
 
     // Copy values from all input Series
     uint32_t currentIndex = 0;
diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..5d7428a 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -133,8 +133,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[2];
         double m[3];
 
-        Serie values(2, serie.count());
-        Serie vectors(4, serie.count());
+        Serie values(2, serie.count(), serie.dimension());
+        Serie vectors(4, serie.count(), serie.dimension());
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
@@ -155,8 +155,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[3];
         double m[6];
 
-        Serie values(3, serie.count());
-        Serie vectors(9, serie.count());
+        Serie values(3, serie.count(), serie.dimension());
+        Serie vectors(9, serie.count(), serie.dimension());
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
diff --git a/src/functional/math/mult.cxx b/src/functional/math/mult.cxx
index 04b1c92..83965bc 100644
--- a/src/functional/math/mult.cxx
+++ b/src/functional/math/mult.cxx
@@ -59,7 +59,7 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
         for (uint32_t i = 0; i < a1.size(); ++i) {
             a3[i] = a1[i] * a2[i];
         }
-        return Serie(1, a3);
+        return Serie(1, a3, serie.dimension());
     }
 
     return serie.map(
-- 
2.43.0


From 7efaefb28ff59c3b5aa587e64d7968d230e6b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 36/65] fix: inv of a non symmetric 3x3 matrix had a wrong yz
 component

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..4151b6e 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (xz * yx - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From ded702a7452f32018d9268ebf0b80c4b030207a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 37/65] fix: Components missed those of an unnamed Serie and
 served one of scalar Series

---
 src/attributes/Components.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 3412589..9b3bd36 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -185,10 +185,10 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     // Others: use integer
-    for (size_t pos = name.size(); pos > 1 && std::isdigit(name[pos - 1]);) {
+    for (size_t pos = name.size(); pos > 0 && std::isdigit(name[pos - 1]);) {
         newName = name.substr(0, --pos);
         serie = dataframe[newName];
-        if (!serie.isValid() || hasLetters(serie)) {
+        if (!serie.isValid() || serie.itemSize() == 1 || hasLetters(serie)) {
             continue;
         }
         for (uint32_t i = 0; i < serie.itemSize(); ++i) {
-- 
2.43.0


From d71799ea09bc0e4723b583f86dc041e86cf68169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 38/65] fix: eigenValues and eigenVectors of a Serie of
 dimension other than 2 or 3 read out of bounds

---
 src/functional/algebra/eigen.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index 5d7428a..d8732cb 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -33,9 +33,9 @@ Serie eigenValues(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 && serie.itemSize() != 6) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
-                                 "Since dim=3, itemSize must be 6 (got " +
+                                 "Since dim!=2, itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
     }
 
@@ -72,9 +72,9 @@ Serie eigenVectors(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 && serie.itemSize() != 6) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
-                                 "Since dim=3, itemSize must be 6 (got " +
+                                 "Since dim!=2, itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
     }
 
-- 
2.43.0


From 1b744d75228e17694992dc7a33ac30792be77b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 39/65] fix: triangles referring to missing points were read
 and written out of bounds

---
 src/attributes/Valence.cxx     | 11 +++++++++++
 src/functional/geo/normals.cxx |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index a36d9aa..e5e2e87 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -58,6 +58,17 @@ namespace df
             return Serie();
         }
 
+        if (indices.itemSize() != 3) {
+            return Serie();
+        }
+
+        // Each triangle must refer to existing points
+        for (double id : indices.asArray()) {
+            if (!(id >= 0 && id < positions.count())) {
+                return Serie();
+            }
+        }
+
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
diff --git a/src/functional/geo/normals.cxx b/src/functional/geo/normals.cxx
index 8b14e4f..ca13a4e 100644
--- a/src/functional/geo/normals.cxx
+++ b/src/functional/geo/normals.cxx
@@ -43,6 +43,13 @@ Serie normals(const Serie &positions, const Serie &indices) {
         return Serie();
     }
 
+    // Each triangle must refer to existing points
+    for (double id : indices.asArray()) {
+        if (!(id >= 0 && id < positions.count())) {
+            return Serie();
+        }
+    }
+
     Array data = createArray(indices.count() * 3, 0);
 
     uint32_t i = 0;
-- 
2.43.0


From 412bae8946c51fe8719fc040fe0cb19f3751bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 40/65] fix: dump of a scalar Serie throws

---
 src/Serie.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 99b3e8d..8ab784a 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -75,13 +75,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
-            std::cerr << tt << " ";
+        for (auto v : value(i)) {
+            std::cerr << v << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0


From 1aefc489d67c0048eacdf30e1a02505d796440c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 41/65] fix: quantile of a NaN fraction returns garbage instead
 of being refused

---
 src/functional/stats/quantile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 1f718f8..46a6970 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,7 +39,7 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
-    if (q < 0 || q > 1) {
+    if (!(q >= 0 && q <= 1)) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
     if (s.count() == 0) {
-- 
2.43.0


From 9d7ff1c7321307143e64415a60a721e554e8614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 42/65] fix: map of a plain list does not compile along with
 map of Series

---
 include/dataframe/functional/map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index 1158d80..ba381d9 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -111,7 +111,9 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
 /**
  * @brief Maps a function over a Serie, allowing change in itemSize
  */
-template <typename F, typename... Args>
+template <typename F, typename... Args,
+          typename = std::enable_if_t<
+              (std::is_convertible_v<const Args &, const Serie &> && ...)>>
 auto map(F &&callback, const Args &...args) {
     if constexpr (details::is_multi_series_call<Args...>::value) {
         // Multiple Series case
-- 
2.43.0


From 698514dd5042b13467de8d16bc64fbd6885bcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 43/65] fix: programs of several source files using merge,
 concat, partition_n, unzip, zip or grids do not link

---
 include/dataframe/functional/geo/cartesian_grid.h | 2 +-
 include/dataframe/functional/merge.h              | 2 +-
 include/dataframe/functional/utils/concat.h       | 2 +-
 include/dataframe/functional/utils/partition_n.h  | 2 +-
 include/dataframe/functional/utils/unzip.h        | 2 +-
 include/dataframe/functional/utils/zip.h          | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/geo/cartesian_grid.h b/include/dataframe/functional/geo/cartesian_grid.h
index 9073fca..bd4e657 100644
--- a/include/dataframe/functional/geo/cartesian_grid.h
+++ b/include/dataframe/functional/geo/cartesian_grid.h
@@ -110,7 +110,7 @@ inline Serie from_dims(const std::vector<uint32_t> &npts,
  * auto cube = df::grid::cartesian::from_points({3,3,3}, {0,0,0}, {1,1,1});
  * ```
  */
-Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
+inline Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
                             const Array &p2) {
     if (npts.empty() || npts.size() > 3) {
         throw std::invalid_argument("npts must have 1, 2 or 3 components");
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index da3ba73..9e7bc97 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -32,7 +32,7 @@ namespace df {
 /**
  * If concatenate is false, interleave is used to merge the series
  */
-Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
+inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     if (s1.itemSize() != s2.itemSize()) {
         throw std::invalid_argument("Series must have same itemSize");
     }
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index ffc215e..94fa74b 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -33,7 +33,7 @@ namespace utils {
 /**
  * Concatenate 2 or more series
  */
-Serie concat(const std::vector<Serie> &series) {
+inline Serie concat(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("concat requires at least one Serie");
     }
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 9ec7008..bfa9693 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -41,7 +41,7 @@ namespace utils {
  *  // parts[2]: {8,9,10}
  * ```
  */
-Series partition_n(uint32_t n, const Serie &serie) {
+inline Series partition_n(uint32_t n, const Serie &serie) {
     if (n == 0) {
         throw std::invalid_argument("n must be > 0");
     }
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index 21d219c..b028d91 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -35,7 +35,7 @@ namespace utils {
  * @param itemSizes Vector containing the itemSize for each output Serie
  * @return Series The unzipped Series
  */
-Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
+inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
     if (itemSizes.empty()) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 60513f1..c225701 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -109,7 +109,7 @@ MAKE_OP(zip);
  * auto result = zipVector(series);
  * ```
  */
-Serie zipVector(const std::vector<Serie> &series) {
+inline Serie zipVector(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("zipVector requires at least one Serie");
     }
-- 
2.43.0


From 2f7e6251aface46eb41947f3d3283b367d6d5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 44/65] fix: a Serie whose assignment or resize failed reported
 items it did not hold

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 8ab784a..7a28741 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -52,15 +52,15 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    count_ = c;
     s_ = Array(c * itemSize_);
+    count_ = c;
 }
 
 Serie &Serie::operator=(const Serie &s) {
+    s_ = Array(s.s_.cbegin(), s.s_.cend());
     count_ = s.count_;
     itemSize_ = s.itemSize_;
     dimension_ = s.dimension_;
-    s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-- 
2.43.0


From f122bee8c00c8694c08933dca82d05b3d0230240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 45/65] fix: the eigen decompositions leaked memory when an
 allocation failed

---
 src/functional/algebra/eigen.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index d8732cb..632faf4 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -22,6 +22,7 @@
  */
 #include <cmath>
 #include <dataframe/functional/algebra/eigen.h>
+#include <vector>
 
 namespace df {
 namespace algebra {
@@ -210,9 +211,11 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
 
     int nb_iter = 0;
     int nn = (n * (n + 1)) / 2;
-    double *a = new double[nn];
-    double *v = new double[n * n];
-    int *index = new int[n];
+    std::vector<double> a_values(nn);
+    std::vector<double> v_values(n * n);
+    std::vector<int> index(n);
+    double *a = a_values.data();
+    double *v = v_values.data();
 
     for (int ij = 0; ij < nn; ++ij) {
         a[ij] = mat[ij];
@@ -332,8 +335,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
         eigen_val[i] = a[k];
     }
 
-    delete[] a;
-
     for (int i = 0; i < n; ++i) {
         index[i] = i;
     }
@@ -366,9 +367,6 @@ void symmetricEigen(const double *mat, int n, double *eigen_vec,
             eigen_vec[ij++] = v[ik++];
         }
     }
-
-    delete[] v;
-    delete[] index;
 }
 
 } // namespace algebra
-- 
2.43.0


From 8e43aa19d9c871814378a5f61eceec121e1b8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 46/65] fix: a memoized function remembered an empty Serie when
 its cache could not store the result

---
 include/dataframe/functional/utils/memoize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index 6429265..4e6de72 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -42,7 +42,7 @@ template <typename F> class Memoized {
             return it->second;
         }
         auto result = func(s);
-        cache[key] = result;
+        cache.emplace(key, result);
         return result;
     }
 
-- 
2.43.0


From 39a4047fd9c984f353693d7bd301b4202884641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 47/65] fix: a Dataframe kept an empty Serie or the new count
 when an addition or a resize failed

---
 src/Dataframe.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index f1385f0..dc7f570 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -45,7 +45,6 @@ namespace df
     {
         if (count_ != count && count > 0)
         {
-            count_ = count;
             if (series_.size())
             {
                 for (auto it = series_.begin(); it != series_.end(); ++it)
@@ -54,6 +53,7 @@ namespace df
                     it->second.reCount(count);
                 }
             }
+            count_ = count;
         }
     }
 
@@ -62,16 +62,16 @@ namespace df
      */
     void Dataframe::add(const std::string &name, const Serie &serie)
     {
-        if (count_ == 0)
+        if (count_ != 0 && count_ != serie.count())
         {
-            count_ = serie.count();
+            // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
         }
+        series_.insert_or_assign(name, serie);
 
-        if (count_ != serie.count())
+        if (count_ == 0)
         {
-            // throw std::invalid_argument("Cannot add a Serie in a Dataframe when its count (" + std::to_string(serie.count()) + ") is different from the Dataframe count (" + std::to_string(count_) + ")");
+            count_ = serie.count();
         }
-        series_[name] = serie;
     }
 
     /**
-- 
2.43.0


From e9a4cb11bb82356240718f2d82fd45e4ebc90fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 48/65] fix: map accepts an item callback returning any number
 (bool, int, float)

---
 include/dataframe/functional/map.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index ba381d9..801c783 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -74,12 +74,13 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
         // Input is vector
         using ResultType = std::invoke_result_t<F, const Array &, uint32_t>;
 
-        if constexpr (std::is_same_v<ResultType, double>) {
-            // Vector to scalar
+        if constexpr (std::is_arithmetic_v<ResultType>) {
+            // Vector to scalar (including int, bool, float, etc.)
             Array results;
             results.reserve(serie.count());
             for (uint32_t i = 0; i < serie.count(); ++i) {
-                results.push_back(cb(serie.template get<Array>(i), i));
+                results.push_back(
+                    static_cast<double>(cb(serie.template get<Array>(i), i)));
             }
             return Serie(1, results, serie.dimension());
         } else {
-- 
2.43.0


From 9fb8adca4a936c7cd2fc175c395f4742f60f03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 49/65] fix: filter, reject and cut accept mutable and noexcept
 predicates

---
 include/dataframe/functional/filter.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index e579b83..dd71f71 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -41,6 +41,25 @@ struct function_filter_traits<R (C::*)(Args...) const> {
     using args_tuple = std::tuple<Args...>;
 };
 
+// Lambdas noexcept, mutables (operator() non const)
+template <typename C, typename R, typename... Args>
+struct function_filter_traits<R (C::*)(Args...) const noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+template <typename C, typename R, typename... Args>
+struct function_filter_traits<R (C::*)(Args...)> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+template <typename C, typename R, typename... Args>
+struct function_filter_traits<R (C::*)(Args...) noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
 // Spécialisation pour les fonctions normales
 template <typename R, typename... Args>
 struct function_filter_traits<R (*)(Args...)> {
@@ -48,6 +67,12 @@ struct function_filter_traits<R (*)(Args...)> {
     using args_tuple = std::tuple<Args...>;
 };
 
+template <typename R, typename... Args>
+struct function_filter_traits<R (*)(Args...) noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
 // Spécialisation pour les types de fonction
 template <typename R, typename... Args>
 struct function_filter_traits<R(Args...)> {
-- 
2.43.0


From 2455f298ce9e6c68a3cd1e785992de93d55afc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 50/65] fix: reduce accepts functions and mutable or noexcept
 reducers

---
 include/dataframe/functional/reduce.h | 38 +++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/dataframe/functional/reduce.h b/include/dataframe/functional/reduce.h
index 94cc3f1..1696a50 100644
--- a/include/dataframe/functional/reduce.h
+++ b/include/dataframe/functional/reduce.h
@@ -37,6 +37,44 @@ struct function_reduce_traits<R (C::*)(Args...) const> {
     using args_tuple = std::tuple<Args...>;
 };
 
+template <typename C, typename R, typename... Args>
+struct function_reduce_traits<R (C::*)(Args...) const noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+template <typename C, typename R, typename... Args>
+struct function_reduce_traits<R (C::*)(Args...)> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+template <typename C, typename R, typename... Args>
+struct function_reduce_traits<R (C::*)(Args...) noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+// Fonctions normales
+template <typename R, typename... Args>
+struct function_reduce_traits<R (*)(Args...)> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+template <typename R, typename... Args>
+struct function_reduce_traits<R (*)(Args...) noexcept> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
+// Spécialisation pour les types de fonction
+template <typename R, typename... Args>
+struct function_reduce_traits<R(Args...)> {
+    using return_type = R;
+    using args_tuple = std::tuple<Args...>;
+};
+
 // Type trait pour détecter les callbacks scalaires
 template <typename F> struct callback_reduce_traits {
     using clean_type = std::remove_cv_t<std::remove_reference_t<F>>;
-- 
2.43.0


From ca6df719cea26b1e16f1d2e38f604a6308ea15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 51/65] fix: sort accepts a comparator of numbers for a Serie
 of numbers

---
 include/dataframe/functional/utils/sort.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index b4ff99c..a01cfe5 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -51,7 +51,8 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             }
         });
         return Serie(1, values, serie.dimension());
-    } else {
+    } else if constexpr (std::is_invocable_v<Comparator &, const Array &,
+                                             const Array &>) {
         std::vector<Array> values;
         values.reserve(serie.count());
         for (uint32_t i = 0; i < serie.count(); ++i) {
@@ -66,6 +67,9 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
         return Serie(serie.itemSize(), flattened, serie.dimension());
+    } else {
+        throw std::invalid_argument(
+            "Cannot use scalar comparator for Serie with itemSize > 1");
     }
 }
 
-- 
2.43.0


From f8dcec6fe47ddedecd92449d0d762b66c09bf4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 52/65] fix: Serie::reduce can be called on a constant Serie

---
 include/dataframe/Serie.h          | 4 ++--
 include/dataframe/inline/Serie.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/Serie.h b/include/dataframe/Serie.h
index f76b8b4..9120c31 100644
--- a/include/dataframe/Serie.h
+++ b/include/dataframe/Serie.h
@@ -105,8 +105,8 @@ class Serie {
 
     template <typename F> void forEach(F &&cb) const;
     template <typename F> auto map(F &&cb) const;
-    template <typename F> auto reduce(F &&cb, double init);
-    template <typename F> auto reduce(F &&cb, const Array &init);
+    template <typename F> auto reduce(F &&cb, double init) const;
+    template <typename F> auto reduce(F &&cb, const Array &init) const;
     template <typename F> auto filter(F &&reduceFn) const;
     template <typename F> auto pipe(F &&op) const;
     template <typename F, typename... Fs> auto pipe(F &&op, Fs &&...ops) const;
diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index ec963a4..b0f0a91 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -41,11 +41,11 @@ template <typename F> auto Serie::map(F &&cb) const {
     return df::map(cb, *this);
 }
 
-template <typename F> auto Serie::reduce(F &&cb, double init) {
+template <typename F> auto Serie::reduce(F &&cb, double init) const {
     return df::reduce(cb, *this, init);
 }
 
-template <typename F> auto Serie::reduce(F &&cb, const Array &init) {
+template <typename F> auto Serie::reduce(F &&cb, const Array &init) const {
     return df::reduce(cb, *this, init);
 }
 
-- 
2.43.0


From 41a17d41df9be941548908100dfeb2bfa4f998fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 53/65] fix: Serie of more values than can be counted is
 refused (its size wrapped around)

---
 src/Serie.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7a28741..fb33a0f 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -23,12 +23,25 @@
 
 #include <dataframe/Serie.h>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 namespace df {
 
+// The number of values of a Serie must fit in what size() returns
+static size_t checkedSize(int itemSize, uint32_t count) {
+    const int64_t size = static_cast<int64_t>(itemSize) * count;
+    if (size < 0 || size > std::numeric_limits<uint32_t>::max()) {
+        throw std::invalid_argument("invalid size for a Serie (itemSize " +
+                                    std::to_string(itemSize) + ", count " +
+                                    std::to_string(count) + ")");
+    }
+    return static_cast<size_t>(size);
+}
+
 Serie::Serie(int itemSize, uint32_t count, uint dimension)
     : itemSize_(itemSize), count_(count), dimension_(dimension) {
-    s_ = Array(count * itemSize);
+    s_ = Array(checkedSize(itemSize, count));
 }
 
 Serie::Serie(const Serie &s)
@@ -52,7 +65,7 @@ Serie::Serie(int itemSize, const std::initializer_list<double> &values,
 bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
-    s_ = Array(c * itemSize_);
+    s_ = Array(checkedSize(itemSize_, c));
     count_ = c;
 }
 
-- 
2.43.0


From 9b15e82da883d7b392a1d28eb3be3b25fc1940c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 54/65] fix: unzip item sizes whose sum wraps around are
 refused

---
 include/dataframe/functional/utils/unzip.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b028d91..c7b031d 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -40,8 +40,9 @@ inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes)
         throw std::invalid_argument("itemSizes cannot be empty");
     }
 
-    uint32_t totalItemSize =
-        std::accumulate(itemSizes.begin(), itemSizes.end(), 0u);
+    // 64 bits, so that large sizes cannot wrap around to the expected total
+    uint64_t totalItemSize =
+        std::accumulate(itemSizes.begin(), itemSizes.end(), uint64_t(0));
     if (totalItemSize != zipped.itemSize()) {
         throw std::invalid_argument("Total itemSize mismatch");
     }
-- 
2.43.0


From 40fefe91ac35abf4ac11e2cf50329d9d8e34204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 55/65] fix: partition_n does not reserve room for parts that
 cannot exist

---
 include/dataframe/functional/utils/partition_n.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index bfa9693..4796d07 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -51,7 +51,7 @@ inline Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t remainder = total % n;
 
     std::vector<Serie> partitions;
-    partitions.reserve(n);
+    partitions.reserve(std::min(n, total + 1)); // no trailing empty part
 
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
-- 
2.43.0


From 43f6ba37cc142540e19d103904ff34064d369050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 56/65] fix: Serie without item size holds no items, whatever
 its count was set to

---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index fb33a0f..12cbae0 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -40,7 +40,8 @@ static size_t checkedSize(int itemSize, uint32_t count) {
 }
 
 Serie::Serie(int itemSize, uint32_t count, uint dimension)
-    : itemSize_(itemSize), count_(count), dimension_(dimension) {
+    : itemSize_(itemSize), count_(itemSize > 0 ? count : 0),
+      dimension_(dimension) {
     s_ = Array(checkedSize(itemSize, count));
 }
 
@@ -66,7 +67,7 @@ bool Serie::isValid() const { return itemSize_ > 0; }
 
 void Serie::reCount(uint32_t c) {
     s_ = Array(checkedSize(itemSize_, c));
-    count_ = c;
+    count_ = itemSize_ > 0 ? c : 0; // no item in an invalid Serie
 }
 
 Serie &Serie::operator=(const Serie &s) {
-- 
2.43.0


From fd3d3c53ad52e4f3aac2c0b7d9611f446401198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 57/65] fix: Matrix views of a number of values that does not
 fit are refused

---
 src/view/Matrix.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/view/Matrix.cxx b/src/view/Matrix.cxx
index b1c6d14..94fd81f 100644
--- a/src/view/Matrix.cxx
+++ b/src/view/Matrix.cxx
@@ -45,6 +45,10 @@ namespace df
 
     Matrix::Matrix(const Array &v, uint m) : v_(v), m_(m)
     {
+        if (v.size() != static_cast<size_t>(m) * m)
+        {
+            throw std::invalid_argument("a matrix of order " + std::to_string(m) + " cannot have " + std::to_string(v.size()) + " values");
+        }
     }
 
     uint32_t Matrix::length() const
@@ -167,7 +171,11 @@ namespace df
 
     Matrix symSquaredMatrix(const Array &v)
     {
-        auto m = (std::sqrt(8 * v.size() + 1) - 1) / 2;
+        const uint m = (std::sqrt(8 * v.size() + 1) - 1) / 2;
+        if (v.size() != static_cast<size_t>(m) * (m + 1) / 2)
+        {
+            throw std::invalid_argument("a symmetric matrix cannot have " + std::to_string(v.size()) + " values");
+        }
         Array w = createArray(m * m, 0);
         for (uint i = 0; i < m; ++i)
         {
-- 
2.43.0


From 3f39871f205e3ee8980d52f44a32727bef39eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 58/65] fix: Vector views of different lengths are refused by
 mult, add, sub and dot

---
 src/view/Vector.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index dbdeb05..026f0ad 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -27,6 +27,14 @@
 namespace df
 {
 
+    static void checkLength(const Vector &a, const Vector &b)
+    {
+        if (a.length() != b.length())
+        {
+            throw std::invalid_argument("size mismatch for vectors (" + std::to_string(a.length()) + " and " + std::to_string(b.length()) + ")");
+        }
+    }
+
     Vector::Vector()
     {
     }
@@ -81,6 +89,7 @@ namespace df
 
     Vector &Vector::mult(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x * s[id++]; };
@@ -90,6 +99,7 @@ namespace df
 
     Vector &Vector::add(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x + s[id++]; };
@@ -99,6 +109,7 @@ namespace df
 
     Vector &Vector::sub(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x - s[id++]; };
@@ -108,6 +119,7 @@ namespace df
 
     double Vector::dot(const Vector &s) const
     {
+        checkLength(*this, s);
         double d = 0;
         for (uint32_t i = 0; i < v_.size(); ++i)
         {
-- 
2.43.0


From f6828c55c4acf92870ad8f9b0f87cf22c0ab81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 59/65] fix: a Manager cannot be copied, since it deletes its
 decomposers

---
 include/dataframe/attributes/Manager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/attributes/Manager.h b/include/dataframe/attributes/Manager.h
index bd5e7d9..e5c555c 100644
--- a/include/dataframe/attributes/Manager.h
+++ b/include/dataframe/attributes/Manager.h
@@ -44,6 +44,10 @@ namespace df
         Manager(const Dataframe &dataframe, const std::vector<Decomposer*> &decomposers = {}, uint dimension=3);
         ~Manager();
 
+        // The decomposers belong to one manager, which deletes them
+        Manager(const Manager &) = delete;
+        Manager &operator=(const Manager &) = delete;
+
         void add(Decomposer* decomposer);
         void clear();
 
-- 
2.43.0


From fe2c8d94f42ede9f0cd4d62e97560c5e96c85f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 60/65] fix: Normals, Area and Valence list their names only
 for valid meshes

---
 src/attributes/Areas.cxx   | 4 ++++
 src/attributes/Normals.cxx | 4 ++++
 src/attributes/Valence.cxx | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 50010e0..001c7d7 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -44,6 +44,10 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        // Not any positions and indices make a mesh
+        if (!this->serie(dataframe, itemSize, name_).isValid()) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index 25360a7..1735770 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -42,6 +42,10 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        // Not any positions and indices make a mesh
+        if (!this->serie(dataframe, itemSize, name_).isValid()) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index e5e2e87..a802107 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -41,6 +41,10 @@ namespace df
         if (!dataframe.contains("positions") || !dataframe.contains("indices")) {
             return Strings();
         }
+        // Not any positions and indices make a mesh
+        if (!this->serie(dataframe, itemSize, name_).isValid()) {
+            return Strings();
+        }
 
         return Strings{name_};
     }
-- 
2.43.0


From 75a2477ef60ea88737e9f40317194494ee4de862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 61/65] fix: approximatelyEqualsAll takes three Series or more

---
 include/dataframe/functional/math/equals.h | 31 +++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/dataframe/functional/math/equals.h b/include/dataframe/functional/math/equals.h
index 00a883f..fa461e7 100644
--- a/include/dataframe/functional/math/equals.h
+++ b/include/dataframe/functional/math/equals.h
@@ -26,6 +26,8 @@
 #include <cmath>
 #include <dataframe/Serie.h>
 #include <limits>
+#include <type_traits>
+#include <utility>
 
 namespace df {
 namespace math {
@@ -95,15 +97,30 @@ inline bool approximatelyEqualsAll(const Serie &serie,
 }
 
 /**
- * @brief Recursive case for approximatelyEqualsAll
+ * @brief Several Series, optionally followed by epsilon
  */
-template <typename... Series>
+template <typename... Args>
 bool approximatelyEqualsAll(const Serie &first, const Serie &second,
-                            const Series &...rest,
-                            double epsilon = DEFAULT_EPSILON) {
-    if (!approximatelyEquals(first, second, epsilon))
-        return false;
-    return approximatelyEqualsAll(second, rest..., epsilon);
+                            const Args &...args) {
+    double epsilon = DEFAULT_EPSILON;
+    auto readEpsilon = [&epsilon](const auto &arg) {
+        if constexpr (std::is_arithmetic_v<std::decay_t<decltype(arg)>>) {
+            epsilon = arg;
+        }
+    };
+    (readEpsilon(args), ...);
+
+    // Each Serie with the next one
+    const Serie *previous = &first;
+    auto sameAsPrevious = [&](const auto &arg) {
+        if constexpr (std::is_arithmetic_v<std::decay_t<decltype(arg)>>) {
+            return true;
+        } else {
+            const Serie *s = std::exchange(previous, &arg);
+            return approximatelyEquals(*s, arg, epsilon);
+        }
+    };
+    return sameAsPrevious(second) && (sameAsPrevious(args) && ...);
 }
 
 /**
-- 
2.43.0


From a57af6dc32eb0481b33a923a7596487bb0af5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 62/65] fix: filter and reject of several Series take any
 predicate usable as a condition

---
 include/dataframe/functional/filter.h       | 2 +-
 include/dataframe/functional/utils/reject.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index dd71f71..6f59b62 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -197,7 +197,7 @@ auto filter(F &&predicate, const Args &...args) {
         // Collect indices that satisfy the predicate
         std::vector<uint32_t> indices;
         for (uint32_t i = 0; i < counts[0]; ++i) {
-            if (predicate(args.template get<Array>(i)..., i) == true) {
+            if (predicate(args.template get<Array>(i)..., i)) {
                 indices.push_back(i);
             }
         }
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index a6bb057..a1c0e49 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -88,7 +88,7 @@ auto reject(F &&predicate, const Args &...args) {
         // Collect indices that satisfy the predicate
         std::vector<uint32_t> indices;
         for (uint32_t i = 0; i < counts[0]; ++i) {
-            if (predicate(args.template get<Array>(i)..., i) == false) {
+            if (!predicate(args.template get<Array>(i)..., i)) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 7ed905d859a61ab380d0ab4b5587a55399eb9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:11 +0000
Subject: [PATCH 63/65] fix: every header can be included first

---
 include/dataframe/functional/filter.h  | 8 ++++++--
 include/dataframe/functional/forEach.h | 8 ++++++--
 include/dataframe/functional/map.h     | 6 +++++-
 include/dataframe/functional/pipe.h    | 6 +++++-
 include/dataframe/functional/reduce.h  | 6 +++++-
 include/dataframe/utils.h              | 8 ++++++--
 include/dataframe/utils/utils.h        | 2 ++
 7 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index 6f59b62..7c94b2e 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -21,9 +21,11 @@
  *
  */
 
-#pragma once
-#include <array>
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include <dataframe/Serie.h>
+#ifndef DATAFRAME_FILTER_H
+#define DATAFRAME_FILTER_H
+#include <array>
 #include <dataframe/utils.h>
 #include <tuple>
 
@@ -301,3 +303,5 @@ template <typename F> auto make_filterAll(F &&cb) {
 }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/forEach.h b/include/dataframe/functional/forEach.h
index 5743070..8f1a6b9 100644
--- a/include/dataframe/functional/forEach.h
+++ b/include/dataframe/functional/forEach.h
@@ -21,8 +21,10 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include <dataframe/Serie.h>
+#ifndef DATAFRAME_FOREACH_H
+#define DATAFRAME_FOREACH_H
 #include <dataframe/utils.h>
 #include <dataframe/functional/macros.h>
 
@@ -133,4 +135,6 @@ void forEach(F &&callback, const Args &...args) {
  */
 MAKE_OP(forEach);
 
-} // namespace df
\ No newline at end of file
+} // namespace df
+
+#endif
diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index 801c783..9f50840 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -21,8 +21,10 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include <dataframe/Serie.h>
+#ifndef DATAFRAME_MAP_H
+#define DATAFRAME_MAP_H
 #include <dataframe/utils.h>
 #include <functional>
 #include <stdexcept>
@@ -180,3 +182,5 @@ auto map(F &&callback, const Args &...args) {
 MAKE_OP(map);
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/pipe.h b/include/dataframe/functional/pipe.h
index b7b058f..9db0412 100644
--- a/include/dataframe/functional/pipe.h
+++ b/include/dataframe/functional/pipe.h
@@ -21,8 +21,10 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include <dataframe/Serie.h>
+#ifndef DATAFRAME_PIPE_H
+#define DATAFRAME_PIPE_H
 
 namespace df {
 
@@ -144,3 +146,5 @@ template <typename... Fs> auto make_pipe(Fs &&...ops) {
 }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/reduce.h b/include/dataframe/functional/reduce.h
index 1696a50..3e7e80b 100644
--- a/include/dataframe/functional/reduce.h
+++ b/include/dataframe/functional/reduce.h
@@ -21,8 +21,10 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include <dataframe/Serie.h>
+#ifndef DATAFRAME_REDUCE_H
+#define DATAFRAME_REDUCE_H
 
 namespace df {
 namespace detail {
@@ -187,3 +189,5 @@ template <typename F> auto make_reduce(F &&cb, const Array &init) {
 // }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/utils.h b/include/dataframe/utils.h
index 8fa67c9..d7d09ab 100644
--- a/include/dataframe/utils.h
+++ b/include/dataframe/utils.h
@@ -21,8 +21,10 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes first, and #pragma once would not do
 #include "Serie.h"
+#ifndef DATAFRAME_UTILS_H
+#define DATAFRAME_UTILS_H
 
 namespace df {
 namespace utils {
@@ -71,4 +73,6 @@ inline std::vector<size_t> countAndCheck(const std::vector<Serie> &series) {
 }
 
 } // namespace utils
-} // namespace df
\ No newline at end of file
+} // namespace df
+
+#endif
diff --git a/include/dataframe/utils/utils.h b/include/dataframe/utils/utils.h
index db5c661..028819e 100644
--- a/include/dataframe/utils/utils.h
+++ b/include/dataframe/utils/utils.h
@@ -23,8 +23,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <string>
 #include <iostream>
+#include <vector>
 
 namespace df
 {
-- 
2.43.0


From f806bd5efdd3ebf8c06042ed3adbb032eeaf12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 64/65] fix: normalize vectors and ranges of any magnitude

---
 src/functional/math/normalize.cxx | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ca37502..98f4813 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -28,6 +28,21 @@
 namespace df {
 namespace math {
 
+// The same direction, with components whose squares can be represented
+static Array balanced(Array item) {
+    double largest = 0;
+    for (double v : item) {
+        largest = std::max(largest, std::fabs(v));
+    }
+    if (largest > 0x1p500 || largest < 0x1p-480) {
+        double k = largest > 1 ? 0x1p-600 : 0x1p600;
+        for (double &v : item) {
+            v *= k;
+        }
+    }
+    return item;
+}
+
 /**
  * @brief Normalize a Serie. If itemSize > 1, normalize each item independently,
  * otherwise normalize the entire Serie.
@@ -45,13 +60,18 @@ Serie normalize(const Serie &serie) {
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
 
-        double l = 1.0 / (max[0] - min[0]);
+        // A power of two, so that the range and its inverse are finite
+        double range = max[0] - min[0];
+        double k = std::isinf(range) ? 0x1p-2 : range < 0x1p-1020 ? 0x1p100 : 1;
+        double low = k * min[0];
+        double l = 1.0 / (k * max[0] - low);
         return serie.map(
-            [l, min](double v, uint32_t) { return l * (v - min[0]); });
+            [k, l, low](double v, uint32_t) { return l * (k * v - low); });
     } else {
         // Normalize each vector independently
         return map(
-            [](const Array &item, uint32_t) {
+            [](const Array &value, uint32_t) {
+                Array item = balanced(value);
                 // Compute length (L2 norm)
                 double length_squared = std::accumulate(
                     item.begin(), item.end(), 0.0,
-- 
2.43.0


From f1cfb7ac7785e8792950c441e1cddb8b22aed2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 65/65] fix: quantiles of infinite values or whose difference
 overflows

---
 src/functional/stats/quantile.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 46a6970..fc22ed4 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -52,6 +52,13 @@ double quantile(const Serie &s, double q) {
     double base = std::floor(pos);
     double rest = pos - base;
     if (uint32_t(base + 1) < sorted.size()) {
+        double low = sorted[uint32_t(base)], high = sorted[uint32_t(base + 1)];
+        if (rest == 0) {
+            return low; // whatever the next one: it may be infinite
+        }
+        if (!std::isfinite(high - low)) {
+            return low * (1 - rest) + high * rest;
+        }
         return sorted[uint32_t(base)] +
                rest * (sorted[uint32_t(base + 1)] - sorted[uint32_t(base)]);
     } else {
-- 
2.43.0


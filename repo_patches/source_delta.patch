From bc0736b6790fe197b59a8cd14c0cb8a198dc7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 001/132] fix: neighbourhood std and variance could be NaN or
 negative from rounding

---
 src/api/neighbourhood.cpp | 41 +++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..f6a52e0 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -209,27 +209,38 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         }
     }
     else if(statistic == gridpp::Std || statistic == gridpp::Variance) {
-        vec2 mean = gridpp::neighbourhood(input, halfwidth, gridpp::Mean);
+        // As in calc_statistic, use VAR(X) = VAR(X-K) to avoid cancellation when the mean is large
+        // compared to the variance. Set K to the first non-missing value.
+        float K = 0;
+        bool found = false;
+        for(int y = 0; y < nY && !found; y++) {
+            for(int x = 0; x < nX && !found; x++) {
+                if(gridpp::is_valid(input[y][x])) {
+                    K = input[y][x];
+                    found = true;
+                }
+            }
+        }
+        vec2 input1(nY);
         vec2 input2(nY);
         for(int y = 0; y < nY; y++) {
-            input2[y].resize(input[y].size(), 0);
+            input1[y].resize(nX, 0);
+            input2[y].resize(nX, 0);
             for(int x = 0; x < nX; x++) {
-                input2[y][x] = input[y][x] * input[y][x];
+                float value = input[y][x] - K;
+                input1[y][x] = value;
+                input2[y][x] = value * value;
             }
         }
+        vec2 mean = gridpp::neighbourhood(input1, halfwidth, gridpp::Mean);
         vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
-        if(statistic == gridpp::Std) {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
-                }
-            }
-        }
-        else {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
-                }
+        for(int y = 0; y < nY; y++) {
+            for(int x = 0; x < nX; x++) {
+                float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                // Rounding errors can make this slightly negative
+                if(variance < 0)
+                    variance = 0;
+                output[y][x] = (statistic == gridpp::Std) ? sqrt(variance) : variance;
             }
         }
     }
-- 
2.43.0


From d1a5cfe8c1887c53a6f7ae61d2998f084908c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 002/132] fix: ensemble neighbourhood pools all members instead
 of taking statistics of statistics

---
 src/api/neighbourhood.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index f6a52e0..49fe14d 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,10 +10,32 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
+    if(halfwidth < 0)
+        throw std::invalid_argument("Half width must be > 0");
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
+
+    if(statistic == gridpp::Mean) {
+        // The number of valid members can vary, so the mean of the member means cannot be used
+        vec2 results = gridpp::neighbourhood(input, halfwidth, gridpp::Sum);
+        vec2 counts = gridpp::neighbourhood(input, halfwidth, gridpp::Count);
+        for(int y = 0; y < results.size(); y++) {
+            for(int x = 0; x < results[y].size(); x++) {
+                results[y][x] /= counts[y][x];
+            }
+        }
+        return results;
+    }
+    if(statistic != gridpp::Sum && statistic != gridpp::Count && statistic != gridpp::Min && statistic != gridpp::Max) {
+        // The statistic cannot be computed from the statistic of each ensemble
+        return gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
+    }
+
     vec2 flat(input.size());
     int Y = input.size();
     int X = input[0].size();
-    int E = input[0][0].size();
     for(int y = 0; y < Y; y++) {
         flat[y].resize(X, 0);
     }
@@ -22,7 +44,8 @@ vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic s
             flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
         }
     }
-    vec2 results = neighbourhood(flat, halfwidth, statistic);
+    // The total count is the sum of the counts of each ensemble
+    vec2 results = neighbourhood(flat, halfwidth, statistic == gridpp::Count ? gridpp::Sum : statistic);
     return results;
 }
 vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic statistic) {
-- 
2.43.0


From af9f159e07f06ff4a57d7c47edcba4875b263488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 003/132] fix: neighbourhood_quantile terminated the process on
 an invalid level

---
 src/api/neighbourhood.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 49fe14d..ebe236a 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -591,6 +591,9 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Check here, since exceptions cannot leave the parallel region below
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -638,6 +641,9 @@ namespace {
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Check here, since exceptions cannot leave the parallel region below
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-- 
2.43.0


From ad9df734eb710e2706850d561bf958be84edf22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 004/132] fix: data races between threads in the neighbourhood
 operators

---
 src/api/neighbourhood.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index ebe236a..5611109 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -58,7 +58,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -197,7 +196,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -211,7 +209,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -220,7 +217,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -271,7 +267,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         output = gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
     }
     double e_time = gridpp::clock() ;
-    // std::cout << count_stat << " " << e_time - s_time << " s" << std::endl;
+    // std::cout << e_time - s_time << " s" << std::endl;
     return output;
 }
 vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds) {
@@ -396,11 +392,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -512,11 +507,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -597,7 +591,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2(0);
@@ -633,7 +626,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -647,7 +639,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2();
@@ -687,7 +678,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From ff9286415533cbbd27ec0644c0af7438ff57efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 005/132] fix: window read before the start of its buffers

---
 src/api/window.cpp | 312 ++++++++++++++++++++++-----------------------
 1 file changed, 156 insertions(+), 156 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..bb7813c 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -1,156 +1,156 @@
-#include "gridpp.h"
-#include <iostream>
-
-using namespace gridpp;
-
-vec2 gridpp::window(const vec2& array,
-    int length, gridpp::Statistic statistic, bool before,
-    bool keep_missing, bool missing_edges) {
-
-    if(length <= 0) {
-        throw std::invalid_argument("Length variable must be > 0");
-    }
-
-    int nY = array.size();
-    if(nY == 0) {
-        return gridpp::init_vec2(0, 0);
-    }
-
-    int nX = array[0].size();
-    if(nX == 0) {
-        return gridpp::init_vec2(nY, 0);
-    }
-
-    vec2 output = gridpp::init_vec2(nY, nX, gridpp::MV);
-
-    if(length % 2 == 0 && !before) {
-        throw std::invalid_argument("Length variable must be an odd number");
-    }
-
-    #pragma omp parallel for
-    for(int y = 0; y < array.size(); y++) {
-        // Use the accumulation/deaccumulation trick for Mean and Sum
-        if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
-            vec counts = vec(array[y].size(), 0);
-
-            for(int x = 0; x < array[y].size(); x++) {
-                if(x == 0) {
-                    if(gridpp::is_valid(array[y][x])) {
-                        values[x] = array[y][x];
-                        counts[x] = 1;
-                    }
-                }
-                else{
-                    if(gridpp::is_valid(array[y][x])) {
-                        values[x] = array[y][x] + values[x-1];
-                        counts[x] = counts[x-1] + 1;
-                    }
-                    else{
-                        values[x] = values[x-1];
-                        counts[x] = counts[x-1];
-                    }
-                }
-            }
-
-            for(int x = 0; x < array[y].size(); x++) {
-                int start;
-                int end;
-
-                // Compute Start and End points
-                if(before) {
-                    start = std::max(0, x - length + 1);
-                    end = x;
-                }
-
-                else{
-                    start = std::max(0, x - length / 2);
-                    end = std::min(nX - 1, x + length / 2);
-                }
-
-                if(start - 1 >= 0) {
-                    if(counts[end] - counts[start-1] != 0) {
-                        output[y][x] = values[end] - values[start - 1];
-                    }
-                }
-                else{
-                    if(counts[end] != 0) {
-                        output[y][x] = values[end];
-                    }
-                }
-
-                if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
-                }
-                else {
-                    if(statistic == gridpp::Mean) {
-                        if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
-                        }
-                    }
-                    if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
-                            output[y][x] = gridpp::MV;
-                        }
-                    }
-
-                    if(missing_edges) {
-                        if(before == false) {
-                            if(x < length / 2 || x + length / 2  + 1 > array[y].size()) {
-                                output[y][x] = gridpp::MV;
-                            }
-                        }
-                        else{
-                            if(x < length - 1) {
-                                output[y][x] = gridpp::MV;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        else {
-            for(int x = 0; x < array[y].size(); x++) {
-                int start;
-                int end;
-                bool outside = false;
-
-                if(before) {
-                    start = x - length + 1;
-                    end = x;
-                }
-                else {
-                    start = x - length / 2;
-                    end = x + length / 2;
-                }
-                if(start < 0) {
-                    start = 0;
-                    outside = true;
-                }
-                if(end > nX - 1) {
-                    end = nX - 1;
-                    outside = true;
-                }
-                int array_size = end - start + 1;
-
-                vec stat_array(array_size, 0);
-                int count_missing = 0;
-                for(int i = start; i <= end; i++) {
-                    float curr = array[y][i];
-                    count_missing += !gridpp::is_valid(curr);
-                    stat_array[i - start] = curr;
-                }
-
-                if(keep_missing && count_missing > 0)
-                    output[y][x] = gridpp::MV;
-                else if(missing_edges && outside)
-                    output[y][x] = gridpp::MV;
-                else {
-                    float value = gridpp::calc_statistic(stat_array, statistic);
-                    output[y][x] = value;
-                }
-            }
-        }
-    }
-    return output;
-}
+#include "gridpp.h"
+#include <iostream>
+
+using namespace gridpp;
+
+vec2 gridpp::window(const vec2& array,
+    int length, gridpp::Statistic statistic, bool before,
+    bool keep_missing, bool missing_edges) {
+
+    if(length <= 0) {
+        throw std::invalid_argument("Length variable must be > 0");
+    }
+
+    int nY = array.size();
+    if(nY == 0) {
+        return gridpp::init_vec2(0, 0);
+    }
+
+    int nX = array[0].size();
+    if(nX == 0) {
+        return gridpp::init_vec2(nY, 0);
+    }
+
+    vec2 output = gridpp::init_vec2(nY, nX, gridpp::MV);
+
+    if(length % 2 == 0 && !before) {
+        throw std::invalid_argument("Length variable must be an odd number");
+    }
+
+    #pragma omp parallel for
+    for(int y = 0; y < array.size(); y++) {
+        // Use the accumulation/deaccumulation trick for Mean and Sum
+        if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
+            vec values = vec(array[y].size(), 0);
+            vec counts = vec(array[y].size(), 0);
+
+            for(int x = 0; x < array[y].size(); x++) {
+                if(x == 0) {
+                    if(gridpp::is_valid(array[y][x])) {
+                        values[x] = array[y][x];
+                        counts[x] = 1;
+                    }
+                }
+                else{
+                    if(gridpp::is_valid(array[y][x])) {
+                        values[x] = array[y][x] + values[x-1];
+                        counts[x] = counts[x-1] + 1;
+                    }
+                    else{
+                        values[x] = values[x-1];
+                        counts[x] = counts[x-1];
+                    }
+                }
+            }
+
+            for(int x = 0; x < array[y].size(); x++) {
+                int start;
+                int end;
+
+                // Compute Start and End points
+                if(before) {
+                    start = std::max(0, x - length + 1);
+                    end = x;
+                }
+
+                else{
+                    start = std::max(0, x - length / 2);
+                    end = std::min(nX - 1, x + length / 2);
+                }
+
+                // Number of valid values, and their sum, in the window
+                float count = counts[end];
+                float sum = values[end];
+                if(start > 0) {
+                    count -= counts[start - 1];
+                    sum -= values[start - 1];
+                }
+                if(count != 0) {
+                    output[y][x] = sum;
+                }
+
+                if(statistic == gridpp::Count) {
+                    output[y][x] = count;
+                }
+                else {
+                    if(statistic == gridpp::Mean) {
+                        if(count != 0) {
+                            output[y][x] = output[y][x] / count;
+                        }
+                    }
+                    if(keep_missing) {
+                        if(count < (end - (start - 1 ))) {
+                            output[y][x] = gridpp::MV;
+                        }
+                    }
+
+                    if(missing_edges) {
+                        if(before == false) {
+                            if(x < length / 2 || x + length / 2  + 1 > array[y].size()) {
+                                output[y][x] = gridpp::MV;
+                            }
+                        }
+                        else{
+                            if(x < length - 1) {
+                                output[y][x] = gridpp::MV;
+                            }
+                        }
+                    }
+                }
+            }
+        }
+        else {
+            for(int x = 0; x < array[y].size(); x++) {
+                int start;
+                int end;
+                bool outside = false;
+
+                if(before) {
+                    start = x - length + 1;
+                    end = x;
+                }
+                else {
+                    start = x - length / 2;
+                    end = x + length / 2;
+                }
+                if(start < 0) {
+                    start = 0;
+                    outside = true;
+                }
+                if(end > nX - 1) {
+                    end = nX - 1;
+                    outside = true;
+                }
+                int array_size = end - start + 1;
+
+                vec stat_array(array_size, 0);
+                int count_missing = 0;
+                for(int i = start; i <= end; i++) {
+                    float curr = array[y][i];
+                    count_missing += !gridpp::is_valid(curr);
+                    stat_array[i - start] = curr;
+                }
+
+                if(keep_missing && count_missing > 0)
+                    output[y][x] = gridpp::MV;
+                else if(missing_edges && outside)
+                    output[y][x] = gridpp::MV;
+                else {
+                    float value = gridpp::calc_statistic(stat_array, statistic);
+                    output[y][x] = value;
+                }
+            }
+        }
+    }
+    return output;
+}
-- 
2.43.0


From 541e7761c2cba581067403079837c61314683f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 006/132] fix: quantile_mapping_curve used unsorted values when
 quantiles are given

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0


From 60c82f0872f540d235149e625df93b185de73f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 007/132] fix: monotonize_curve read out of bounds when no
 point is valid

---
 src/api/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..9b92239 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -160,6 +160,10 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    if(N == 0) {
+        output_fcst.clear();
+        return vec();
+    }
     ivec new_indices;
     new_indices.reserve(N);
 
-- 
2.43.0


From e2bf4e0303a3bacdc9d28636a8fd121d4a3b13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 008/132] fix: apply_curve terminated the process on empty
 spatially varying curves

---
 src/api/curve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 9b92239..2a643a0 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -116,7 +116,16 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
 
     int nY = fcst.size();
+    if(nY == 0)
+        return vec2();
     int nX = fcst[0].size();
+    // Check here, since exceptions cannot leave the parallel region below
+    for(int y = 0; y < nY; y++) {
+        for(int x = 0; x < nX; x++) {
+            if(curve_fcst[y][x].size() == 0)
+                throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+        }
+    }
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
-- 
2.43.0


From a3068e861774560650f1c693351e724d69cd1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 009/132] fix: calc_score counted missing forecasts as
 non-events

---
 src/api/metric_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..e1bd758 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -187,8 +187,12 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
     float a = 0, b = 0, c = 0, d = 0;
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
+        if(!gridpp::is_valid(ref[t]) || !gridpp::is_valid(fcst[t]))
+            continue;
         if(fcst[t] > fthreshold) {
             if(ref[t] > threshold)
                 a++;
-- 
2.43.0


From 066714a88a9b27c046667cda0d33552f22a6b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 010/132] fix: calc_even_quantiles returned duplicate values

---
 src/api/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..f484ec6 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -324,7 +324,9 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
             if(index >= 0) {
                 assert(index < remaining_unique_values.size());
                 float value = remaining_unique_values[index];
-                quantiles.push_back(value);
+                // The same value is picked repeatedly when there are few unique values left
+                if(value > quantiles[quantiles.size() - 1])
+                    quantiles.push_back(value);
             }
             else {
                 std::cout << i << " " << f << " " << index << " " << num_left << " " << remaining_unique_values.size() << std::endl;
-- 
2.43.0


From 1c8bd052493e62d135b89b23bab61da51320c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 011/132] fix: nearest neighbour of an empty KDTree read past
 the end

---
 src/api/kdtree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..8bc8df7 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -102,7 +102,11 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec I = get_closest_neighbours(lat, lon, 1, include_match);
+    if(I.size() > 0)
+        return I[0];
+    else
+        return -1;
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
-- 
2.43.0


From 76982a14228ad6ad5b18a9e45d08a0ef447fa064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 012/132] fix: copies and subsets of Points lost their
 coordinate type

---
 src/api/points.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..c15fa1d 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -120,7 +120,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = other.mTree;
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From eb91ed73a8a33a87f6811825f5585ea7863d4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 013/132] fix: Cartesian Point had x and y swapped relative to
 grids and indices

---
 src/api/point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
-- 
2.43.0


From bb1b777a50674e60f0309c508305530ca6d2e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 014/132] fix: downscaling to an empty grid or from empty
 values read out of bounds

---
 src/api/bilinear.cpp |  4 ++--
 src/api/nearest.cpp  | 10 +++++-----
 src/api/util.cpp     |  6 ++++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..77a9ca0 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -33,7 +33,7 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -62,7 +62,7 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..59c00b1 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -11,7 +11,7 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -37,7 +37,7 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -77,7 +77,7 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -103,7 +103,7 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -198,7 +198,7 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
-        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
+        ss << "Input points (" << ipoints.size() << ") and values (" << (ivalues.size() > 0 ? ivalues[0].size() : 0) << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     vec iOutputLats = opoints.get_lats();
diff --git a/src/api/util.cpp b/src/api/util.cpp
index f484ec6..db52f1b 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -427,10 +427,12 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     return y;
 }
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    if(v.size() == 0)
+        return grid.size()[0] == 0;
+    return grid.size()[0] == v.size() && grid.size()[1] == v[0].size();
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    return v.size() == 0 || gridpp::compatible_size(grid, v[0]);
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
     return v.size() == 0 || points.size() == v[0].size();
-- 
2.43.0


From 897577854b03799ae672b90a9df1c51e358c02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 015/132] fix: Grid::get_box rejected Cartesian coordinates
 beyond 90

---
 src/api/grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..dbe0fe6 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -181,6 +181,7 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
 
     int it = 0;
     bool found = false;
+    CoordinateType type = get_coordinate_type();
     while(it < 4) {
         xdir = -1 + 2 * (it %2);
         ydir = -1 + 2 * (it < 2);
@@ -194,11 +195,11 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        Point A(mLats[Y][X], mLons[Y][X], gridpp::MV, gridpp::MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], gridpp::MV, gridpp::MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], gridpp::MV, gridpp::MV, type);
+        Point curr(lat, lon, gridpp::MV, gridpp::MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From cd97c9872e31babc7f075358d4f2c91300ea6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 016/132] fix: downscale_probability read out of bounds for
 mismatching sizes

---
 src/api/downscale_probability.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..81d31f9 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -8,8 +8,15 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
+    if(!gridpp::compatible_size(iOutputLats, threshold))
+        throw std::invalid_argument("Output grid size is not the same as threshold");
+
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
+    if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+        return gridpp::init_vec2(nLat, nLon, gridpp::MV);
+    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
+        throw std::invalid_argument("Input grid size is not the same as values");
     int nEns = ivalues[0][0].size();
 
     vec2 output(nLat);
-- 
2.43.0


From 1cc8bcc27fcae753c210c07a50f8866c47c3aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 017/132] fix: mask_threshold_downscale did not validate sizes
 and quantile level

---
 src/api/mask_threshold_downscale_consensus.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..57281a8 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -20,8 +20,19 @@ namespace {
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
 
+        if(!gridpp::compatible_size(iOutputLats, threshold))
+            throw std::invalid_argument("Output grid size is not the same as threshold");
+
         int nLat = iOutputLats.size();
-        int nLon = iOutputLats[0].size();
+        int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
+        if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+            return gridpp::init_vec2(nLat, nLon, gridpp::MV);
+        if(ivalues_true.size() != igrid.size()[0] || ivalues_true[0].size() != igrid.size()[1])
+            throw std::invalid_argument("Input grid size is not the same as values");
+        if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
+            throw std::invalid_argument("Input values do not have the same size");
+        if(statistic == gridpp::Quantile && gridpp::is_valid(quantile) && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile level must be between 0 and 1");
         int nEns = ivalues_true[0][0].size();
 
         vec2 output(nLat);
-- 
2.43.0


From 1af86934c288cb93e541de0693488eb1d4a7d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 018/132] fix: smart read an empty vector when no point is in
 range

---
 src/api/smart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..8bd6b4b 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -45,7 +45,7 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
+            assert(rhos.size() == 0 || rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From 7543a8f36d904673a23cc1f1a647cae4d291ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 019/132] fix: bilinear aborted for trapezoidal cells needing
 the second root

---
 src/api/bilinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 77a9ca0..909e655 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -249,7 +249,7 @@ namespace {
             // std::cout << "Need to diagnose s" << std::endl;
             beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
+                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
             float t =  1 - beta;
             float s;
             if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-- 
2.43.0


From 120d7e94b905577ff238f4cbaec0c0551d12e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 020/132] fix: full_gradient did not validate sizes of values
 and gradients in all forms

---
 src/api/gradient.cpp | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..cf6f542 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -2,22 +2,32 @@
 
 using namespace gridpp;
 
+namespace {
+    // Throws if values and (non-empty) gradients do not match the grid
+    void check_sizes(const Grid& igrid, const vec2& ivalues, const vec2& elev_gradient, const vec2& laf_gradient) {
+        if(!gridpp::compatible_size(igrid, ivalues))
+            throw std::invalid_argument("Values is the wrong size");
+        if(laf_gradient.size() > 0 && !gridpp::compatible_size(igrid, laf_gradient))
+            throw std::invalid_argument("Laf gradient is the wrong size");
+        if(elev_gradient.size() > 0 && !gridpp::compatible_size(igrid, elev_gradient))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
+    }
+    void check_sizes(const Grid& igrid, const vec3& ivalues, const vec3& elev_gradient, const vec3& laf_gradient) {
+        if(!gridpp::compatible_size(igrid, ivalues))
+            throw std::invalid_argument("Values is the wrong size");
+        if(laf_gradient.size() > 0 && (laf_gradient.size() != ivalues.size() || !gridpp::compatible_size(igrid, laf_gradient)))
+            throw std::invalid_argument("Laf gradient is the wrong size");
+        if(elev_gradient.size() > 0 && (elev_gradient.size() != ivalues.size() || !gridpp::compatible_size(igrid, elev_gradient)))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
+    }
+}
+
 vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& ivalues,  const vec2& elev_gradient, const vec2& laf_gradient, Downscaler downscaler) {
     // Sizes;
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
-        throw std::invalid_argument("Values is the wrong size");
-
-    if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
-
-            throw std::invalid_argument("Laf gradient is the wrong size");
-
-    if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
-            throw std::invalid_argument("Elevation gradient is the wrong size");
+    check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
 
     vec2 oelevs = ogrid.get_elevs();
     vec2 olafs = ogrid.get_lafs();
@@ -90,6 +100,8 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
     int nX = ogrid.size()[1];
     int nTime = ivalues.size();
 
+    check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     //Outputs
     vec2 oelevs = ogrid.get_elevs();
     vec2 olafs = ogrid.get_lafs();
@@ -100,14 +112,12 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -174,6 +184,8 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
 }
 
 vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2& ivalues, const vec2& elev_gradient, const vec2& laf_gradient, Downscaler downscaler) {
+    check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     vec olafs = opoints.get_lafs();
     vec oelevs = opoints.get_elevs();
 
@@ -183,16 +195,12 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -225,6 +233,8 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
 }
 
 vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3& ivalues, const vec3& elev_gradient, const vec3& laf_gradient, Downscaler downscaler) {
+    check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     vec olafs = opoints.get_lafs();
     vec oelevs = opoints.get_elevs();
 
-- 
2.43.0


From 5d7561c88266d32cc9494278b4e6736cbea8f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 021/132] fix: full_gradient_debug read out of bounds when a
 gradient is omitted

---
 src/api/gradient.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index cf6f542..f9d5303 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -315,16 +315,14 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
     vec3 output = gridpp::init_vec3(nY, nX, 9);
     vec2 dvalues = gridpp::downscaling(igrid, ogrid, ivalues, downscaler);
     vec2 delev_gradient;
-    vec2 delevs;
+    vec2 delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     if(elev_gradient.size() != 0) {
         delev_gradient = gridpp::downscaling(igrid, ogrid, elev_gradient, downscaler);
-        delevs = gridpp::downscaling(igrid, ogrid, igrid.get_elevs(), downscaler);
     }
     vec2 dlaf_gradient;
-    vec2 dlafs;
+    vec2 dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     if(laf_gradient.size() != 0) {
         dlaf_gradient = gridpp::downscaling(igrid, ogrid, laf_gradient, downscaler);
-        dlafs = gridpp::downscaling(igrid, ogrid, igrid.get_lafs(), downscaler);
     }
 
     for(int y = 0; y < nY ; y++){
-- 
2.43.0


From 79c755e3740582fd056d7f4a0110eb9a06079ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 022/132] fix: soar, toar and cressman correlations were
 negative or above 1 for negative differences

---
 src/api/structure.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 6d05272..b589040 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -38,7 +38,7 @@ float gridpp::StructureFunction::cressman_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    if(dist >= length)
+    if(std::fabs(dist) >= length)
         return 0;
     return (length * length - dist * dist) / (length * length + dist * dist);
 }
@@ -49,7 +49,7 @@ float gridpp::StructureFunction::soar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = std::fabs(dist) / length;
     return (1 + v) * exp(-v);
 }
 /* third order autoregressive function */
@@ -59,7 +59,7 @@ float gridpp::StructureFunction::toar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = std::fabs(dist) / length;
     return (1 + v + (v * v) / 3) * exp(-v);
 }
 /* powerlaw function */
-- 
2.43.0


From 77d76e914731ae3dc7c1f63e3582e9fd01b6b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 023/132] fix: soar and toar ignored hmax and vanished
 everywhere for small hmax

---
 include/gridpp.h      |  2 ++
 src/api/structure.cpp | 41 ++++++++++++++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/gridpp.h b/include/gridpp.h
index eccd691..03d66b3 100644
--- a/include/gridpp.h
+++ b/include/gridpp.h
@@ -2214,6 +2214,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_max_dist;
             bool m_is_spatial;
     };
     /** TOAR structure function based on distance, elevation, and land area fraction */
@@ -2246,6 +2247,7 @@ namespace gridpp {
             vec2 mV;
             vec2 mW;
             float m_min_rho;
+            float m_max_dist;
             bool m_is_spatial;
     };
     /** Powerlaw structure function based on distance, elevation, and land area fraction */
diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index b589040..9372597 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -2,6 +2,32 @@
 
 using namespace gridpp;
 
+namespace {
+    // Find the normalized distance where a decreasing correlation function drops to min_rho
+    template<class F> float find_max_dist(F rho, float min_rho) {
+        double lower = 0;
+        double upper = 1;
+        while(rho(upper) > min_rho && upper < 1e6) {
+            lower = upper;
+            upper *= 2;
+        }
+        for(int i = 0; i < 60; i++) {
+            double mid = (lower + upper) / 2;
+            if(rho(mid) > min_rho)
+                lower = mid;
+            else
+                upper = mid;
+        }
+        return lower;
+    }
+    float find_soar_max_dist(float min_rho) {
+        return find_max_dist([](double x) { return (1 + x) * exp(-x); }, min_rho);
+    }
+    float find_toar_max_dist(float min_rho) {
+        return find_max_dist([](double x) { return (1 + x + x * x / 3) * exp(-x); }, min_rho);
+    }
+}
+
 const float gridpp::StructureFunction::default_min_rho = 0.0013;
 
 gridpp::StructureFunction::StructureFunction(float localization_distance) {
@@ -329,6 +355,7 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_max_dist = ::find_soar_max_dist(m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -342,6 +369,7 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
 gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_max_dist(::find_soar_max_dist(min_rho)),
         mH(h),
         mV(v),
         mW(w) {
@@ -452,10 +480,7 @@ float gridpp::SoarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::SoarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 8.53
-    float log_min_rho = log(m_min_rho);
-    return ( -log_min_rho + log( -log_min_rho)) * h;
+    return m_max_dist * h;
 }
 //-----------------------------------------------------------------------------
 /** End SOAR */
@@ -479,6 +504,7 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
         m_min_rho = (1 + hmax / h + pow(hmax / h, 2)/3) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
+    m_max_dist = ::find_toar_max_dist(m_min_rho);
     vec2 h2(1);
     h2[0].push_back(h);
     vec2 v2(1);
@@ -492,6 +518,7 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
 gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float min_rho) :
         m_grid(grid),
         m_min_rho(min_rho),
+        m_max_dist(::find_toar_max_dist(min_rho)),
         mH(h),
         mV(v),
         mW(w) {
@@ -602,11 +629,7 @@ float gridpp::ToarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::ToarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x+1/3*x^2)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 9.487
-    float log_min_rho = log(m_min_rho);
-    float log_log_min_rho = log( -log(m_min_rho));
-    return ( -log_min_rho + log_log_min_rho + 0.5 * log_log_min_rho ) * h;
+    return m_max_dist * h;
 }
 //-----------------------------------------------------------------------------
 /** End TOAR */
-- 
2.43.0


From 3b7691a15d9f254a6e632304795d4e3b84081bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 024/132] fix: optimal_interpolation_full left the analysis
 variance empty without observations

The gridded version then read past the end of it.
---
 src/api/oi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..d0c0453 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -186,8 +186,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
-- 
2.43.0


From 3ed350d68c512a1e9f88027ccff09231aecb189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 025/132] fix: optimal_interpolation did not validate the sizes
 of all its inputs

---
 src/api/oi.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index d0c0453..256b1a6 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -120,6 +120,12 @@ vec gridpp::optimal_interpolation(const gridpp::Points& bpoints,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     vec obs_variance(pratios.size());
     vec bvariance_at_points(pratios.size());
     for(int i = 0; i < pratios.size(); i++) {
@@ -175,6 +181,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -366,6 +377,11 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
         ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
         throw std::invalid_argument(ss.str());
     }
+    if(bvariance.size() != bgrid.size()[0] || bvariance[0].size() != bgrid.size()[1]) {
+        std::stringstream ss;
+        ss << "Background variance is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        throw std::invalid_argument(ss.str());
+    }
     if(obs.size() != points.size()) {
         std::stringstream ss;
         ss << "Observations (" << obs.size() << ") and points (" << points.size() << ") size mismatch";
-- 
2.43.0


From 7c8425f3d883c36f0e3462fc90d0c4aaa12dd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 026/132] fix: optimal_interpolation gave missing analyses
 around observations with a missing variance

---
 src/api/oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 256b1a6..d32a104 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -263,7 +263,7 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pbackground[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pbackground[index]) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From c42fb17be959232d21f349e3c4697b5314d7b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 027/132] fix: optimal_interpolation extrapolated when the
 largest or smallest innovation is zero

---
 src/api/oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index d32a104..b2cb3b0 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -332,13 +332,13 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
             float maxInc = arma::max(lObs - lY);
             float minInc = arma::min(lObs - lY);
 
-            if(maxInc > 0 && increment > maxInc) {
+            if(maxInc >= 0 && increment > maxInc) {
                increment = maxInc;
             }
             else if(maxInc < 0 && increment > 0) {
                increment = maxInc;
             }
-            else if(minInc < 0 && increment < minInc) {
+            else if(minInc <= 0 && increment < minInc) {
                increment = minInc;
             }
             else if(minInc > 0 && increment < 0) {
-- 
2.43.0


From 8e03a320bc41fc951ddb0f54e292596031743d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 028/132] fix: optimal_interpolation terminated the process
 when the covariance matrix is singular

---
 src/api/oi.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index b2cb3b0..c4072d3 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -231,6 +231,8 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
+    int singular = 0;
+
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         if(!gridpp::is_valid(background[y])) {
@@ -325,7 +327,14 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        mattype lInv;
+        if(!arma::inv(lInv, lP + lR)) {
+            // Exceptions cannot be thrown out of the parallel region
+            #pragma omp atomic write
+            singular = 1;
+            continue;
+        }
+        mattype lGSR = lG * lInv;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
@@ -349,6 +358,8 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         mattype a = (lGSR * lG.t());
         analysis_variance[y] = bvariance[y] * (1 - a(0, 0));
     }
+    if(singular)
+        throw std::runtime_error("Cannot invert the observation covariance matrix: collocated observations need a positive variance");
 
     return output;
 }
-- 
2.43.0


From 16eecd06524b309cd99ba097b5dea46cca5e4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 029/132] fix: EnSI compared member increments with the
 innovations of other members

lY[e] is an element of the observation-by-member matrix, not the e-th member.
---
 src/api/oi_ensi.cpp       | 4 ++--
 src/api/oi_ensi_multi.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..4acc83d 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -520,8 +520,8 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..4f2cfa1 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -1263,8 +1263,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
-- 
2.43.0


From 75fd5e269c2adab80ddb52c884c5fffcfa4c79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 030/132] fix: EnSI extrapolated when the largest or smallest
 innovation is zero

---
 src/api/oi_ensi.cpp       |  4 ++--
 src/api/oi_ensi_multi.cpp | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4acc83d..48f6e19 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -534,13 +534,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 4f2cfa1..f524175 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -588,14 +588,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0;
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -831,14 +831,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0; 
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -1277,13 +1277,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From a80a8857aaa0065c24466378e7debe1e5505142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 031/132] fix: EnSI did not validate the number of members at
 observation points

---
 src/api/oi_ensi.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 48f6e19..1c991f3 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -79,6 +79,12 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument(ss.str());
     }
 
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
+
     // Check ensemble size is consistent
     if(nE != pbackground[0].size()) {
         std::stringstream ss;
@@ -145,7 +151,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    for(int i = 0; i < nS; i++) {
+        if(pbackground[i].size() != nEns)
+            throw std::invalid_argument("Background and point background do not have the same number of members");
+    }
 
     // Prepare output matrix
     vec2 output = background;
-- 
2.43.0


From b1913b5494f600f46f288535a5867bb706ef1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 032/132] fix: EnSI included missing members in the mean at
 observation points and failed around incomplete observations

---
 src/api/oi_ensi.cpp | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 1c991f3..60be7f0 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -175,27 +175,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     vec pelevs = points.get_elevs();
     vec plafs = points.get_lafs();
 
-    // Compute Y
-    vec2 gY = pbackground;
-    vec gYhat(nS);
-    for(int i = 0; i < nS; i++) {
-        float mean = gridpp::calc_statistic(gY[i], gridpp::Mean);
-        for(int e = 0; e < nEns; e++) {
-            float value = gY[i][e];
-            if(gridpp::is_valid(value) && gridpp::is_valid(mean)) {
-                gY[i][e] -= mean;
-            }
-        }
-        gYhat[i] = mean;
-    }
-
-    // Create all objects of type Point (to save time on creation later)
-    std::vector<Point> point_vec;
-    point_vec.reserve(nS);
-    for(int i = 0; i < nS; i++) {
-        point_vec.push_back(points.get_point(i));
-    }
-
     // Calculate number of valid members
     int nValidEns = 0;
     ivec validEns;
@@ -212,6 +191,32 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         }
     }
 
+    // Compute Y, using only the valid members. Observations without a complete background are not used.
+    vec2 gY = pbackground;
+    vec gYhat(nS);
+    std::vector<bool> validObs(nS);
+    for(int i = 0; i < nS; i++) {
+        vec values(nValidEns);
+        validObs[i] = gridpp::is_valid(pobs[i]) && gridpp::is_valid(psigmas[i]);
+        for(int e = 0; e < nValidEns; e++) {
+            values[e] = gY[i][validEns[e]];
+            if(!gridpp::is_valid(values[e]))
+                validObs[i] = false;
+        }
+        float mean = gridpp::calc_statistic(values, gridpp::Mean);
+        for(int e = 0; e < nValidEns; e++) {
+            gY[i][validEns[e]] -= mean;
+        }
+        gYhat[i] = mean;
+    }
+
+    // Create all objects of type Point (to save time on creation later)
+    std::vector<Point> point_vec;
+    point_vec.reserve(nS);
+    for(int i = 0; i < nS; i++) {
+        point_vec.push_back(points.get_point(i));
+    }
+
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -244,7 +249,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(validObs[index]) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From 6a7cb0b664bd75af7c840cd4137752f075af0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 033/132] fix: multi-variate EnSI wrote out of bounds with more
 observations than background points

---
 src/api/oi_ensi_multi.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index f524175..5e7948d 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -419,7 +419,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         return background;
 
     // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -953,8 +953,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 6cd35abce38e4cfe6d0befe3e8aff206a3834d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 034/132] fix: multi-variate EnSI aborted or mixed up members
 when a member is missing

---
 src/api/oi_ensi_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5e7948d..eeb1074 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -554,7 +554,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -803,7 +803,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
-- 
2.43.0


From 4edc730b6e5307a5ff32751690be5ee506a73657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 035/132] fix: multi-variate EnSI did not ignore observations
 missing for some members or with a missing ratio

---
 src/api/oi_ensi_multi.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index eeb1074..dcef477 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -20,6 +20,15 @@ namespace {
             return left.first < right.first;
         };
     };
+
+    // Is the observation available for all the members in use?
+    bool is_valid_obs(const vec& values, const ivec& members) {
+        for(int e = 0; e < members.size(); e++) {
+            if(!gridpp::is_valid(values[members[e]]))
+                return false;
+        }
+        return true;
+    }
 }
 
 template<class Matrix>
@@ -477,7 +486,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            if(is_valid_obs(pobs[index], validEns) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -742,7 +751,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            if(is_valid_obs(pobs[index], validEns) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -1026,7 +1035,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(pratios[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From aaac89fc46ebb028a54dc4fe776879915e1b0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 036/132] fix: multi-variate EnSI did not validate the number
 of members of its inputs

---
 src/api/oi_ensi_multi.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index dcef477..84490f7 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -21,6 +21,13 @@ namespace {
         };
     };
 
+    // Check that each location has the same number of members as the background
+    void check_members(const vec2& values, int nEns) {
+        for(int i = 0; i < values.size(); i++) {
+            if(values[i].size() != nEns)
+                throw std::invalid_argument("Inputs do not have the same number of members");
+        }
+    }
     // Is the observation available for all the members in use?
     bool is_valid_obs(const vec& values, const ivec& members) {
         for(int e = 0; e < members.size(); e++) {
@@ -376,7 +383,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    check_members(background_corr, nEns);
+    check_members(pobs, nEns);
+    check_members(pbackground, nEns);
+    check_members(pbackground_corr, nEns);
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -670,7 +683,11 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    check_members(pobs, nEns);
+    check_members(pbackground, nEns);
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -909,7 +926,12 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     bool diagnose = false;
 
     int nY = background.size();
+    if(nY == 0)
+        return background;
     int nEns = background[0].size();
+    check_members(background_corr, nEns);
+    check_members(pbackground, nEns);
+    check_members(pbackground_corr, nEns);
 
     // Prepare output matrix
     vec2 output = background;
-- 
2.43.0


From 7e34cbefa58580a75017b5bac0e4019b0c7d4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 037/132] fix: Box-Cox backward transformation did not invert
 the forward one for negative parameters

---
 src/api/transform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..fcc442c 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,10 +114,12 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
-         value = -1.0 / mThreshold;
+      // Values outside the range of the forward transformation
+      float base = 1 + mThreshold * value;
+      if(base < 0) {
+         base = 0;
       }
-      rValue = pow(1 + mThreshold * value, 1 / mThreshold);
+      rValue = pow(base, 1 / mThreshold);
    }
    if(rValue <= 0)
       rValue = 0;
-- 
2.43.0


From 1bedccc80487d5ccdf7f0bdcaa4a4aa36231d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 038/132] fix: dewpoint returned the temperature (saturation)
 for air without moisture

---
 src/api/humidity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/humidity.cpp b/src/api/humidity.cpp
index 1857565..498b2a4 100644
--- a/src/api/humidity.cpp
+++ b/src/api/humidity.cpp
@@ -4,6 +4,9 @@ using namespace gridpp;
 
 float gridpp::dewpoint(float temperature, float relative_humidity) {
     if(gridpp::is_valid(temperature) && gridpp::is_valid(relative_humidity)) {
+        // There is no dewpoint in air without moisture
+        if(relative_humidity <= 0)
+            return gridpp::MV;
         // Taken from https://github.com/metno/wdb2ts
         float tempC = temperature - 273.15;
         float e = (relative_humidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From 5f5834ddee94b8bab5d68723b7884ff344699736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 039/132] fix: sea_level_pressure gave a missing value for zero
 relative humidity below 50 m

---
 src/api/pressure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..b2b7aa8 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -47,6 +47,7 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
     float slp = 0.;
     float a = 0.0065; // [K/gpm]
     float Ch = 0.12; // [K/hPa]
+    bool dry = false;
     ps = ps*0.01;
 
     if ( gridpp::is_valid(rh) ) {
@@ -57,6 +58,7 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
         float C = 6.1094;
         // http://climate.envsci.rutgers.edu/pdf/LawrenceRHdewpointBAMS.pdf
         dewpoint = (B * log(e / C)) / (A - log(e / C));
+        dry = e == 0; // No dewpoint exists
     } else if ( gridpp::is_valid(dewpoint) ) {
         dewpoint = dewpoint - 273.15;
         e = 6.11 * pow(10, ((7.5 * dewpoint) / (237.3 + dewpoint)));
@@ -69,7 +71,8 @@ float gridpp::sea_level_pressure(float ps, float altitude, float temperature, fl
     if (altitude >= 50.) {
         slp = ps * exp((g * altitude / R) / (Ts + 0.5 * a * altitude + e * Ch));
     } else if (altitude < 50.) {
-        float Tv = (273.15 + T) / (1 - 0.379 * (6.11 * pow(10.,  (((7.5 * dewpoint) / (237.7 + dewpoint))) )  / ps ));
+        float ed = dry ? 0 : 6.11 * pow(10.,  (((7.5 * dewpoint) / (237.7 + dewpoint))) );
+        float Tv = (273.15 + T) / (1 - 0.379 * ed / ps );
         float Ck = ps * altitude / (29.27 * Tv);
         slp = ps + Ck;
     }
-- 
2.43.0


From 2116829572665278b6950b283f104fcb7be9e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 040/132] fix: sea_level_pressure on arrays terminated the
 process for missing or unphysical values

---
 src/api/pressure.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index b2b7aa8..3956263 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -1,4 +1,5 @@
 #include "gridpp.h"
+#include <exception>
 
 using namespace gridpp;
 
@@ -88,9 +89,19 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
     vec values(N);
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        try {
+            values[i] = gridpp::sea_level_pressure(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+        }
+        catch(...) {
+            // Exceptions cannot be thrown out of the parallel region
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return values;
 }
-- 
2.43.0


From 43387b6aea195c4a800ced32094eb36aa6466ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 041/132] fix: qnh returned 0 for zero pressure when the
 altitude is missing

---
 src/api/qnh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/qnh.cpp b/src/api/qnh.cpp
index dd99106..3ebfa52 100644
--- a/src/api/qnh.cpp
+++ b/src/api/qnh.cpp
@@ -4,9 +4,9 @@
 using namespace gridpp;
 
 float gridpp::qnh(float pressure, float altitude) {
-   if(pressure == 0)
+   if(gridpp::is_valid(altitude) && gridpp::is_valid(pressure)) {
+      if(pressure == 0)
          return 0;
-   else if(gridpp::is_valid(altitude) && gridpp::is_valid(pressure)) {
       float g  = 9.80665;   // m/s2
       float T0 = 288.15;    // K
       float L  = 0.0065;    // K/m
-- 
2.43.0


From aa6e700a87ccb22e2cc74e0dbd57b1711e744e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 042/132] fix: fill_missing read outside an empty field

---
 src/api/fill.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..19ab931 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -42,6 +42,8 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 
 vec2 gridpp::fill_missing(const vec2& values) {
     int Y = values.size();
+    if(Y == 0)
+        return vec2();
     int X = values[0].size();
     vec2 results_y(Y);
     vec2 results_x(Y);
-- 
2.43.0


From c2926c27ba4cbfa82a8241888295617333536522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 043/132] fix: gridding to points let every thread compute and
 write every output

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 6756071148db0555b6a40af5149e1f12a3b2f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 044/132] fix: min-max gradient was missing instead of the
 default where the base is constant

---
 src/api/calc_gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 2961d09..b9233d4 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -62,6 +62,10 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
                     output[y][x] = default_gradient;
                 }
 
+                else if(current_max == current_min) {
+                    // A gradient cannot be computed, even if no minimum range is required
+                    output[y][x] = default_gradient;
+                }
                 else if(abs(current_max - current_min) <= min_range){
                     output[y][x] = default_gradient;
                 }
-- 
2.43.0


From 848a49a6a3b45c3f45a80efc3125206b47007f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 045/132] fix: neighbourhood_search read outside an apply_array
 with a single row, and outside empty input

---
 src/api/neighbourhood_search.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..2f33a1f 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -13,14 +13,16 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(halfwidth < 0) {
         throw std::invalid_argument("halfwidth must be positive");
     }
-    if(search_array.size() != array.size() || search_array[0].size() != array[0].size()) {
-
+    if(!gridpp::compatible_size(array, search_array)) {
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
+    if(apply_array.size() > 0 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
 
+    if(array.size() == 0)
+        return vec2();
+
     vec2 output = gridpp::init_vec2(array.size(), array[0].size());
     bool use_apply_array = apply_array.size() > 0;
 
-- 
2.43.0


From a4b87722c52a7c3e1ca36d6d70c6ae2d3f9066ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 046/132] fix: local_distribution_correction leaves cells
 without usable observations unchanged

---
 src/api/local_distribution_correction.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..9bf007e 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -95,6 +95,10 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 Point p2 = points.get_point(index);
                 float curr_rho = structure.corr_background(p1, p2);
                 // curr_rho = 1;
+                if(curr_rho <= 0) {
+                    // Observations without correlation must not affect the calibration curve
+                    continue;
+                }
                 for(int t = 0; t < nT; t++) {
                     if(!gridpp::is_valid(pobs[t][index]) || !gridpp::is_valid(pbackground[t][index]))
                         continue;
@@ -111,7 +115,7 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 }
             }
 
-            if (count >= min_points) {
+            if (count > 0 && count >= min_points) {
                 // Create a calibration curve of ref,fcst, so that we can adjust the current
                 // background value
                 std::sort(ref_rho.begin(), ref_rho.end(), ::sort_pair_first<float, float>());
@@ -120,6 +124,10 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 // Remove the lowest and highest values
                 int d0 = (int) count * min_quantile;
                 int d1 = (int) count * max_quantile;
+                if(d1 <= d0) {
+                    // No observations left to create a curve from
+                    continue;
+                }
                 ref_rho = std::vector<std::pair<float, float> >(ref_rho.begin() + d0, ref_rho.begin() + d1);
                 fcst_rho = std::vector<std::pair<float, float> >(fcst_rho.begin() + d0, fcst_rho.begin() + d1);
 
-- 
2.43.0


From fd4b3d19c16a601196a22084dad8f6eb50826c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 047/132] fix: local_distribution_correction rejects inputs of
 the wrong size and invalid quantiles

---
 src/api/local_distribution_correction.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index 9bf007e..e54a6ce 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,7 +40,14 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(!gridpp::compatible_size(bgrid, background))
+        throw std::invalid_argument("Grid size is not the same as background values");
+    if(!gridpp::is_valid(min_quantile) || !gridpp::is_valid(max_quantile) || min_quantile < 0 || max_quantile > 1 || min_quantile > max_quantile)
+        throw std::invalid_argument("Quantiles must be between 0 and 1, and min_quantile must not exceed max_quantile");
+
     int nY = background.size();
+    if(nY == 0)
+        return vec2();
     int nX = background[0].size();
     int nT = pobs.size();
     vec2 blats = bgrid.get_lats();
@@ -49,9 +56,13 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
 
     if (pobs.size() != pbackground.size()) {
         std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
+        ss << "pobs has a different number of times (" << pobs.size() << ") than pbackground (" << pbackground.size() << ")";
         throw std::invalid_argument(ss.str());
     }
+    for(int t = 0; t < nT; t++) {
+        if(pobs[t].size() < points.size() || pbackground[t].size() < points.size())
+            throw std::invalid_argument("pobs and pbackground must have a value for each point");
+    }
 
     bool weighted = true;
     float alpha = 0.01;
-- 
2.43.0


From 631d10634b2b4bc9b35663626b672ea398a19373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 048/132] fix: neighbourhood_score handles an empty grid

---
 src/api/neighbourhood_score.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..5e2a8f9 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -14,6 +14,8 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
     }
 
     int nY = fcst.size();
+    if(nY == 0)
+        return vec2();
     int nX = fcst[0].size();
 
     vec2 a = gridpp::init_vec2(nY, nX, 0);
-- 
2.43.0


From be3b205ed149df7d2cca83d3395b876ce09ca271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 049/132] fix: gridding_nearest handles an empty set of output
 points

---
 src/api/gridding.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..afd3860 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -81,6 +81,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     // Not parallelizable, because two threads might be writing to the same piece of memory
     for(int s = 0; s < S; s++) {
         ivec indices = grid.get_nearest_neighbour(lats[s], lons[s]);
+        if(indices.size() == 0)
+            continue;
         int iY = indices[0];
         int iX = indices[1];
         temp[iY][iX].push_back(values[s]);
@@ -115,6 +117,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
     // Not parallelizable, because two threads might be writing to the same piece of memory
     for(int s = 0; s < S; s++) {
         int index = opoints.get_nearest_neighbour(lats[s], lons[s]);
+        if(index < 0)
+            continue;
         temp[index].push_back(values[s]);
     }
 
-- 
2.43.0


From b68326c56a5c309eb498c350183597277de65d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 050/132] fix: the great-circle distance of nearly identical or
 antipodal points is not NaN

---
 src/api/kdtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 8bc8df7..740002c 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -131,6 +131,8 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
+        // Rounding can bring the ratio slightly outside the domain of acos
+        ratio = std::max(-1.0, std::min(1.0, ratio));
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
-- 
2.43.0


From e99d958e64963527472836633d3abf677a02d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 051/132] fix: calc_distance rejects unknown coordinate types

---
 src/api/kdtree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 740002c..4e272eb 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -136,6 +136,9 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
+    else {
+        throw std::runtime_error("Unknown coordinate type");
+    }
 }
 float gridpp::KDTree::calc_distance_fast(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
-- 
2.43.0


From 30cc917ab46a9ddb8393e84e2b2a4fb0b17f8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 052/132] fix: points created from a tree have missing
 elevations and land fractions unless given

---
 src/api/points.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index c15fa1d..d03595f 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -30,6 +30,13 @@ gridpp::Points::Points(vec lats, vec lons, vec elevs, vec lafs, CoordinateType t
     }
 }
 gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
+    int N = tree.size();
+    if(elevs.size() != 0 && elevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size at lats/lons");
+    if(lafs.size() != 0 && lafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size at lats/lons");
+    elevs.resize(N, gridpp::MV);
+    lafs.resize(N, gridpp::MV);
     mElevs = elevs;
     mLafs = lafs;
     mTree = tree;
-- 
2.43.0


From 3c5aed34958d8003da0b866c1b32135ea264012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 053/132] fix: grids with different latitude and longitude
 sizes are rejected

---
 src/api/grid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index dbe0fe6..22404a2 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -10,6 +10,8 @@ gridpp::Grid::Grid() {
     mX = 0;
 }
 gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType type) {
+    if(!gridpp::compatible_size(lats, lons))
+        throw std::invalid_argument("Cannot create grid with unequal lat and lon sizes");
     if(lats.size() == 0) {
         vec lats;
         vec lons;
-- 
2.43.0


From c5ade7e234c51bc26d3e1754a58f4a9f838fa6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 054/132] fix: client distance is a number for coinciding and
 antipodal points

---
 src/client/Util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..9490c54 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <math.h>
 #include <assert.h>
+#include <algorithm>
 namespace Cglob {
 #include <glob.h>
 }
@@ -132,6 +133,8 @@ float Util::getDistance(float lat1, float lon1, float lat2, float lon2, bool app
       double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                    + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                    + sin(lat1r)*sin(lat2r);
+      // Rounding can bring the ratio slightly outside [-1,1]
+      ratio = std::max(-1.0, std::min(1.0, ratio));
       double dist = acos(ratio)*radiusEarth;
       return (float) dist;
    }
-- 
2.43.0


From f0fcf9df0b3c40bd6576e74ebd701a51b6a28917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 055/132] fix: maximum of a client variable is read from its
 own option

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From eaa7bbd9dd612ef5506ff02d77a22eb05e8b0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 056/132] fix: recomputed location tree of a parameter file
 holds only current locations

---
 src/client/ParameterFile/ParameterFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..d1bbda7 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
-- 
2.43.0


From 74a2d98bc98852bd589d58f78df4824feaf08aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 057/132] fix: read the documented minPrecip option of the
 phase calibrator

---
 src/client/Calibrator/Phase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From f14f70c2f87cce336b1a66e3b9b9d9cceae2fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 058/132] fix: give a missing dewpoint where the relative
 humidity is not positive

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index c754650..7cd46a6 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -113,6 +113,9 @@ bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile*
 
 float CalibratorDiagnoseHumidity::computeDewpoint(float iTemperature, float iRelativeHumidity) {
    if(Util::isValid(iTemperature) && Util::isValid(iRelativeHumidity)) {
+      // There is no dewpoint in air without moisture
+      if(iRelativeHumidity <= 0)
+         return Util::MV;
       // Taken from https://github.com/metno/wdb2ts
       float tempC = iTemperature - 273.15;
       float e = (iRelativeHumidity)*0.611*exp( (17.63 * tempC) / (tempC + 243.04) );
-- 
2.43.0


From 12338671765a6f9b99961c1b0869096a496f97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 059/132] fix: sort only the valid members in the sort
 calibrator

---
 src/client/Calibrator/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Sort.cpp b/src/client/Calibrator/Sort.cpp
index a7557d9..4f6208d 100644
--- a/src/client/Calibrator/Sort.cpp
+++ b/src/client/Calibrator/Sort.cpp
@@ -25,10 +25,9 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             std::vector<float> values = field(i,j);
-            std::sort(values.begin(), values.end());
 
             // Create a new array with all the missing values
-            // at the end
+            // at the end. These cannot take part in the sorting.
             std::vector<float> missingLast(nEns, Util::MV);
             int counter = 0;
             for(int e = 0; e < nEns; e++) {
@@ -37,6 +36,7 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
                   counter++;
                }
             }
+            std::sort(missingLast.begin(), missingLast.begin() + counter);
             for(int e = 0; e < nEns; e++) {
                field(i,j,e) = missingLast[e];
             }
-- 
2.43.0


From ec48cd3db08d9b91f7d3fedd3daed688e97d2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 060/132] fix: keep missing values missing in the wind
 direction calibrator

---
 src/client/Calibrator/WindDirection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..568f2f9 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -46,7 +46,10 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                float currDirection = direction(i,j,e);
                if(Util::isValid(currDirection)) {
                    float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+                   if(!Util::isValid(factor))
+                      wind(i,j,e) = Util::MV;
+                   else if(Util::isValid(wind(i,j,e)))
+                      wind(i,j,e) = factor*wind(i,j,e);
                }
             }
          }
-- 
2.43.0


From b09d386a3469fcd97d21d1b2d40b3e59621f06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 061/132] fix: treat a missing predictor as missing in
 multivariate regression

---
 src/client/Calibrator/Regression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..08dd3ee 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -69,11 +69,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                      // Accumulate a + b * var1 + c * var2 ...
                      for(int p = 0; p < parameters.size(); p++) {
                         float coeff = parameters[p];
-                        if(!Util::isValid(coeff)) {
+                        float predictor = (*fields[p])(i,j,e);
+                        if(!Util::isValid(coeff) || !Util::isValid(predictor)) {
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        total += coeff*predictor;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From 083586ea1df25faf45bcff981b1258d66fbf85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 062/132] fix: recompute the mask for every time of a time
 dependent parameter file

---
 src/client/Calibrator/Mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Mask.cpp b/src/client/Calibrator/Mask.cpp
index 7143cfe..c7bff76 100644
--- a/src/client/Calibrator/Mask.cpp
+++ b/src/client/Calibrator/Mask.cpp
@@ -38,6 +38,7 @@ bool CalibratorMask::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             if(t == 0 || iParameterFile->isTimeDependent()) {
+               isWithinRadius[i][j] = 0;
                Location loc(Util::MV, Util::MV, Util::MV);
                Location currLocation(lats[i][j], lons[i][j], elevs[i][j]);
                if(mUseNearestOnly) {
-- 
2.43.0


From c2cd87f243e42a8cf970f5fb672c21fa2441ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 063/132] fix: handle ties, single points and the zero policy
 in quantile mapping

---
 src/client/Calibrator/Qq.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 34335e6..b6008fa 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -115,13 +115,14 @@ bool CalibratorQq::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(mPolicy == ExtrapolationPolicy::Zero) {
                            slope = 0;
                         }
-                        if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
+                        else if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
                            slope = 1;
                         }
                         else if(mPolicy == ExtrapolationPolicy::MeanSlope) {
                            float dObs  = largestObs - smallestObs;
                            float dFcst = largestFcst - smallestFcst;
-                           slope = dObs / dFcst;
+                           if(dFcst != 0)
+                              slope = dObs / dFcst;
                         }
                         else if(mPolicy == ExtrapolationPolicy::NearestSlope) {
                            float dObs;
@@ -134,7 +135,8 @@ bool CalibratorQq::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                               dObs  = obsVec[N-1] - obsVec[N-2];
                               dFcst = fcstVec[N-1] - fcstVec[N-2];
                            }
-                           slope = dObs / dFcst;
+                           if(dFcst != 0)
+                              slope = dObs / dFcst;
                         }
                         value = nearestObs + slope * (raw - nearestFcst);
                      }
@@ -193,7 +195,7 @@ Parameters CalibratorQq::train(const std::vector<ObsEns>& iData) const {
       int N = obs.size();
       std::vector<float> x(N);
       for(int i = 0; i < N; i++) {
-         x[i] = (float) i / (N-1);
+         x[i] = (N > 1) ? (float) i / (N-1) : 0;
       }
       for(int i = 0; i < mQuantiles.size(); i++) {
          float currObs  = Util::interpolate(mQuantiles[i], x, obs);
-- 
2.43.0


From 894772bded48455b6ceaf8eb1a19562973bbcd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 064/132] fix: bilinear downscaling of grids with decreasing
 coordinates or a single row

---
 src/client/Downscaler/Bilinear.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..360b4b6 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -200,6 +200,10 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    assert(I < nI && I >= 0);
    assert(J < nJ && J >= 0);
 
+   // A grid with a single row or column has no boxes
+   if(nI < 2 || nJ < 2)
+      return false;
+
    // Check if we are outside the grid
    // 0 1 2 3 x
    // if(I == nI-1 || I == 0 || J == nJ -1 || J == 0)
@@ -225,12 +229,12 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
       return false;
    // x 3 2 1 0
-   if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+   if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
       return false;
 
    // Are the lats/lons increating when the index increases?
-   bool Iinc = (I == 0) || (iLats[I][J] > iLats[I-1][J]);
-   bool Jinc = (J == 0) || (iLons[I][J] > iLons[I][J-1]);
+   bool Iinc = (I == 0) ? (iLats[1][J] > iLats[0][J]) : (iLats[I][J] > iLats[I-1][J]);
+   bool Jinc = (J == 0) ? (iLons[I][1] > iLons[I][0]) : (iLons[I][J] > iLons[I][J-1]);
 
    getI(I, isAbove, Iinc, I1, I2);
    getJ(J, isRight, Jinc, J1, J2);
@@ -312,7 +316,7 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
          return false;
       // x 3 2 1 0
-      if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+      if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
          return false;
       x0 = iLons[I1][J1];
       x1 = iLons[I2][J1];
@@ -474,6 +478,7 @@ bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2)
          I2 = I + 1;
       }
    }
+   return true;
 }
 
 bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
@@ -498,6 +503,7 @@ bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2)
          J2 = J + 1;
       }
    }
+   return true;
 }
 std::string DownscalerBilinear::description(bool full) {
    std::stringstream ss;
-- 
2.43.0


From d89c7f3d0df309ea3df32ba5c0b8e81e416a4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 065/132] fix: downscale to a missing value at points without a
 location

---
 src/client/Downscaler/Bilinear.cpp         | 9 +++++++++
 src/client/Downscaler/Gradient.cpp         | 5 +++++
 src/client/Downscaler/NearestNeighbour.cpp | 8 ++++----
 src/client/Downscaler/Pressure.cpp         | 5 +++++
 src/client/Downscaler/Smart.cpp            | 3 +++
 5 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 360b4b6..7e38da9 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -96,6 +96,10 @@ vec2 DownscalerBilinear::downscaleVec(const vec2& iInput,
          int J = nearestJ[i][j];
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            output[i][j] = Util::MV;
+            continue;
+         }
          int I1 = Util::MV;
          int I2 = Util::MV;
          int J1 = Util::MV;
@@ -148,6 +152,11 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
          int J = nearestJ[i][j];
          float lat = iOutputLats[i][j];
          float lon = iOutputLons[i][j];
+         if(!Util::isValid(I) || !Util::isValid(J)) {
+            for(int ee = 0; ee < nEns; ee++)
+               iOutput(i,j,ee) = Util::MV;
+            continue;
+         }
          // Find out if current lookup point is right/above the nearest neighbour
          int I1 = Util::MV;
          int I2 = Util::MV;
diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..521abac 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -109,6 +109,11 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               for(int e = 0; e < nEns; e++)
+                  ofield(i,j,e) = Util::MV;
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/NearestNeighbour.cpp b/src/client/Downscaler/NearestNeighbour.cpp
index 81a147c..d55069e 100644
--- a/src/client/Downscaler/NearestNeighbour.cpp
+++ b/src/client/Downscaler/NearestNeighbour.cpp
@@ -92,15 +92,15 @@ vec2 DownscalerNearestNeighbour::downscaleVec(const vec2& iInput,
          assert(j < nearestJ[i].size());
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
-         assert(I < iInput.size());
-         assert(J < iInput[I].size());
-         assert(I >= 0);
-         assert(J >= 0);
          assert(i < output.size());
          assert(j < output[i].size());
          assert(i >= 0);
          assert(j >= 0);
          if(Util::isValid(I) && Util::isValid(J)) {
+            assert(I >= 0);
+            assert(J >= 0);
+            assert(I < iInput.size());
+            assert(J < iInput[I].size());
             output[i][j] = iInput[I][J];
          }
          else
diff --git a/src/client/Downscaler/Pressure.cpp b/src/client/Downscaler/Pressure.cpp
index ae6d06f..27dbd18 100644
--- a/src/client/Downscaler/Pressure.cpp
+++ b/src/client/Downscaler/Pressure.cpp
@@ -35,6 +35,11 @@ void DownscalerPressure::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               for(int e = 0; e < nEns; e++)
+                  ofield(i,j,e) = Util::MV;
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 81a9b7c..a5cd290 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -81,6 +81,9 @@ void DownscalerSmart::getSmartNeighbours(const File& iFrom, const File& iTo, vec
       for(int j = 0; j < nLon; j++) {
          int Ic = Icenter[i][j];
          int Jc = Jcenter[i][j];
+         // No neighbours are available when the location is missing
+         if(!Util::isValid(Ic) || !Util::isValid(Jc))
+            continue;
          float oelev = oelevs[i][j];
          float nnElev = ielevs[Ic][Jc];
          bool isWithinMinElev = Util::isValid(oelev) && Util::isValid(nnElev) && Util::isValid(mMinElevDiff) && 
-- 
2.43.0


From dbfd1f43f8f23dc773c29e8de16887ff2a300341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 066/132] fix: compute the elevation gradient also where one
 point is elevated above sea level

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 521abac..f22a46b 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -442,7 +442,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
       // Use model gradient if:
       // 1) sufficient elevation difference in neighbourhood
       // 2) regression parameters are stable enough
-      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff && meanXX != meanX*meanX) {
+      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff) {
          // Estimate lapse rate
          meanXY /= counter;
          meanX  /= counter;
-- 
2.43.0


From c81f676c4d0e1ed321d6fef19203d7d17ca8b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 067/132] fix: find the neighbourhood maximum when limiting
 gradient downscaling

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f22a46b..b06f5ed 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -202,7 +202,7 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
-- 
2.43.0


From 15b84408e913efa894b04ebfaece3eb550c8690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 068/132] fix: apply the documented limits to the land fraction
 gradient

---
 src/client/Downscaler/Gradient.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index b06f5ed..5ebed19 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -16,6 +16,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mSaveGradient(""),
       mMinLafForElevGradient(0),
       mMinLafDiff(0.1),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mLafRadius(0),
       mDownscalerName("nearestNeighbour"),
       mMinNumPoints(2),
@@ -381,6 +383,11 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
    }
    else {
       gradient = value / totalWeight;
+      // Check against minimum and maximum gradients
+      if(Util::isValid(mMinLafGradient) && gradient < mMinLafGradient)
+         gradient = mMinLafGradient;
+      if(Util::isValid(mMaxLafGradient) && gradient > mMaxLafGradient)
+         gradient = mMaxLafGradient;
    }
    return gradient;
 }
-- 
2.43.0


From b73eee5b8cb817a9066decac647937082db81d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 069/132] fix: do not count points without a land fraction as
 sea

---
 src/client/Downscaler/Gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index 5ebed19..1f12aeb 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -313,7 +313,7 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
             float currElev = iElevs[ii][jj];
             float currValue = iField(ii,jj,e);
             if(Util::isValid(currValue)) {
-               numSeaPoints += currLaf < 0.5;
+               numSeaPoints += Util::isValid(currLaf) && currLaf < 0.5;
                numPoints++;
             }
             if(Util::isValid(currValue) && Util::isValid(currLaf)) {
-- 
2.43.0


From e44ca055bc65aef5f5a6224cc3f93f56167daa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 070/132] fix: nearest neighbours near the poles and across the
 date line in the client's tree

---
 src/client/KDTree.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..8155469 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -1,7 +1,34 @@
 #include "KDTree.h"
 
+#include <algorithm>
+#include <cmath>
 #include <limits>
 
+namespace {
+   //! Longitude on the interval [-180,180)
+   float normalizeLon(float lon) {
+      if(lon >= -180 && lon < 180)
+         return lon;
+      float value = fmod(lon, 360);
+      if(value < -180)
+         value += 360;
+      else if(value >= 180)
+         value -= 360;
+      return value;
+   }
+
+   //! Distance (in meters) to the nearest place on a meridian
+   float distanceToMeridian(float lat, float lon, float meridian) {
+      double dLon = std::fabs((double) lon - meridian);
+      if(dLon > 180)
+         dLon = 360 - dLon;
+      if(dLon >= 90) // The nearest place is a pole
+         return Util::getDistance(lat, lon, lat < 0 ? -90 : 90, lon);
+      double sinDist = std::cos(lat * Util::pi / 180) * std::sin(dLon * Util::pi / 180);
+      return std::asin(std::min(1.0, std::fabs(sinDist))) * Util::radiusEarth;
+   }
+}
+
 KDTree::KDTree() : mRoot(NULL) {
 }
 
@@ -47,7 +74,7 @@ void KDTree::build(const vec2& iLats, const vec2& iLons) {
    for(size_t i = 0; i < iLats.size(); ++i) {
      for(size_t j = 0; j < iLats[0].size(); ++j) {
         if(Util::isValid(iLons[i][j]) && Util::isValid(iLats[i][j])) {
-           *(currLon++) = Indexed(iLons[i][j], iLats[i][j], i, j);
+           *(currLon++) = Indexed(normalizeLon(iLons[i][j]), iLats[i][j], i, j);
            ++to;
         }
      }
@@ -147,7 +174,8 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // The other side can also be reached across the date line
+         cross = std::min(distanceToMeridian(lat, lon, currentLeaf->lon), distanceToMeridian(lat, lon, 180)) < currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
@@ -218,7 +246,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
       for(size_t j = 0; j < nLon; ++j) {
          if(Util::isValid(olats[i][j]) && Util::isValid(olons[i][j])) {
             // Find the nearest neighbour from input grid (ii, jj)
-            nearest = nearestNeighbour(mRoot, olons[i][j], olats[i][j], std::numeric_limits<float>::infinity()).first;
+            nearest = nearestNeighbour(mRoot, normalizeLon(olons[i][j]), olats[i][j], std::numeric_limits<float>::infinity()).first;
             iI[i][j] = nearest->ipos;
             iJ[i][j] = nearest->jpos;
          }
@@ -227,7 +255,7 @@ void KDTree::getNearestNeighbour(const File& iTo, vec2Int& iI, vec2Int& iJ) cons
 }
 
 void KDTree::getNearestNeighbour(float iLat, float iLon, int& iI, int& iJ) const {
-   const TreeNode * nearest = nearestNeighbour(mRoot, iLon, iLat, std::numeric_limits<float>::infinity()).first;
+   const TreeNode * nearest = nearestNeighbour(mRoot, normalizeLon(iLon), iLat, std::numeric_limits<float>::infinity()).first;
    iI = nearest->ipos;
    iJ = nearest->jpos;
    return;
-- 
2.43.0


From 294146665a3eea9f962cb893d3c40fc6dc1d9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 071/132] fix: coastal calibrator: do not read neighbours that
 have already been overwritten

---
 src/client/Calibrator/Coastal.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..be63aee 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      // Neighbours must be read before they are overwritten
+      const Field input = *field;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +54,17 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = input(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = input(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = input(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
-- 
2.43.0


From 969039857f528a85e9cfbf3e01db8c9f65521cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 072/132] fix: coastal calibrator: missing values give missing
 values

---
 src/client/Calibrator/Coastal.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index be63aee..3ec3330 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -79,14 +79,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
+               float baseValue = mUseNN ? nearestNeighbour : lowerValue;
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               if(Util::isValid(baseValue))
+                  value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
          }
@@ -146,14 +143,12 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
       float valueMax = Util::calculateStat(ensMax, Util::StatTypeMean);
       std::vector<float> ensNn = (*iData[i].second)(iIens, iJens);
       float valueNN = Util::calculateStat(ensNn, Util::StatTypeMean);
-      if(Util::isValid(obs) && Util::isValid(valueNN)) {
+      float baseValue = mUseNN ? valueNN : valueMin;
+      if(Util::isValid(obs) && Util::isValid(valueNN) && Util::isValid(baseValue)) {
          float gradient = 0;
          if(Util::isValid(valueMin) && Util::isValid(valueMax))
             gradient = (valueMax - valueMin)/(maxLaf - minLaf);
-         if(mUseNN)
-            y.push_back(obs-valueNN);
-         else
-            y.push_back(obs-valueMin);
+         y.push_back(obs-baseValue);
          x[0].push_back(1);
          x[1].push_back(gradient);
          if(iIobs == 54 && iJobs == 16) {
-- 
2.43.0


From 79f2cb8ae022baaf7ef4330b8d92f822edcc4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 073/132] fix: coastal calibrator: ignore missing land
 fractions

---
 src/client/Calibrator/Coastal.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 3ec3330..d746de7 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -59,6 +59,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
                         lowerValue = input(ii,jj,e);
                         minLaf = currLaf;
@@ -111,6 +113,8 @@ Parameters CalibratorCoastal::train(const std::vector<ObsEnsField>& iData, const
    for(int ii = std::max(0, iIens-mSearchRadius); ii <= std::min(nLat-1, iIens+mSearchRadius); ii++) {
       for(int jj = std::max(0, iJens-mSearchRadius); jj <= std::min(nLon-1, iJens+mSearchRadius); jj++) {
          float currLaf = laf[ii][jj];
+         if(!Util::isValid(currLaf))
+            continue;
          if(currLaf < minLaf) {
             Imin = ii;
             Jmin = jj;
-- 
2.43.0


From 485f4d29614ed5961cf46762d039bb21d25d0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 074/132] fix: kriging calibrator: missing values stay missing

---
 src/client/Calibrator/Kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..155fc96 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -349,6 +349,8 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
+                  if(!Util::isValid(rawValue))
+                     continue;
 
                   // Adjust bias based on auxillary weight
                   if(mAuxVariable != "") {
-- 
2.43.0


From fa6905115f1a7f274aa185162ebb5c0243e4ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 075/132] fix: kriging calibrator: reconstruct the divisor
 around a mean of 1

---
 src/client/Calibrator/Kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 155fc96..3ed8fc7 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -344,7 +344,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(mOperator == Util::OperatorMultiply)
                   finalBias = finalBias + 1;
                else if(mOperator == Util::OperatorDivide)
-                  finalBias = finalBias - 1;
+                  finalBias = finalBias + 1;
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-- 
2.43.0


From 57dcd5c21479853e416c701376db4c05ccf0fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 076/132] fix: kriging calibrator: weight each member by its
 own auxiliary variable

---
 src/client/Calibrator/Kriging.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 3ed8fc7..32de97a 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -352,32 +352,33 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   if(!Util::isValid(rawValue))
                      continue;
 
-                  // Adjust bias based on auxillary weight
+                  // Adjust bias based on this member's auxillary weight
+                  float memberBias = finalBias;
                   if(mAuxVariable != "") {
                      float weight = auxWeights[i][j][e][t];
                      if(mOperator == Util::OperatorAdd || mOperator == Util::OperatorSubtract) {
-                        finalBias = finalBias * weight;
+                        memberBias = finalBias * weight;
                      }
                      else {
-                        finalBias = pow(finalBias, weight);
+                        memberBias = pow(finalBias, weight);
                      }
                   }
 
                   if(mOperator == Util::OperatorAdd) {
-                     (*field)(i,j,e) += finalBias;
+                     (*field)(i,j,e) += memberBias;
                   }
                   else if(mOperator == Util::OperatorSubtract) {
-                     (*field)(i,j,e) -= finalBias;
+                     (*field)(i,j,e) -= memberBias;
                   }
                   else if(mOperator == Util::OperatorMultiply) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) *= finalBias;
+                     (*field)(i,j,e) *= memberBias;
                   }
                   else if(mOperator == Util::OperatorDivide) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) /= finalBias;
+                     (*field)(i,j,e) /= memberBias;
                   }
                   else {
                      Util::error("Unrecognized operator in CalibratorKriging");
-- 
2.43.0


From 7b0d3e4857a30323c60822de2e36b83d5069b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 077/132] fix: kriging calibrator: leave out the nearest
 location when cross-validating

---
 src/client/Calibrator/Kriging.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 32de97a..205f4c2 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -293,24 +293,25 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                continue;
 
             // Don't use the nearest station when cross validating
-            float maxCovar = Util::MV;
-            int ImaxCovar = Util::MV;
+            int ImaxCovar = Util::MV; // Index into the list of all locations
+            vec2 cvInverse;
             if(mCrossValidate) {
-               for(int ii = 0; ii < currS.size(); ii++) {
-                  if(!Util::isValid(ImaxCovar) || currS[ii] > maxCovar) {
-                     ImaxCovar = ii;
-                     maxCovar = currS[ii];
-                  }
+               int Icurr = 0; // Index into the list of nearby locations
+               for(int ii = 1; ii < currS.size(); ii++) {
+                  if(currS[ii] > currS[Icurr])
+                     Icurr = ii;
                }
-               currS[ImaxCovar] = 0;
+               ImaxCovar = currI[Icurr];
+               currS[Icurr] = 0;
                vec2 cvMatrix = matrix;
-               for(int ii = 0; ii < currN; ii++) {
+               for(int ii = 0; ii < N; ii++) {
                   cvMatrix[ImaxCovar][ii] = 0;
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +320,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From 9079cb3544f4b3ad1e25b148a00a56f94c4b3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 078/132] fix: kriging calibrator: locations of unknown
 position do not covary with others

---
 src/client/Calibrator/Kriging.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 205f4c2..6f3d248 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -203,7 +203,11 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
          // Improve conditioning of matrix when you have two or more stations
          // that are very close
          float factor = 0.414 / 0.5;
-         float R = calcCovar(iloc, jloc)*factor;
+         float R = calcCovar(iloc, jloc);
+         // Locations with unknown position do not covary with any other
+         if(!Util::isValid(R))
+            R = 0;
+         R = R*factor;
          // Store the number in both halves
          matrix[ii][jj] = R;
          matrix[jj][ii] = R;
-- 
2.43.0


From de5c49aeaef4e66785d1536f73ce29918afe95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 079/132] fix: getting an unavailable field does not overwrite
 the other times of the variable

---
 src/client/File/File.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..43e6f82 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -111,6 +111,9 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
       }
       else if (iSkipRead) {
          for(int t = 0; t < getNumTime(); t++) {
+            // Don't overwrite fields that are already in memory
+            if(mFields[iVariable][t] != NULL)
+               continue;
             FieldPtr field = getEmptyField();
             addField(field, iVariable, t);
          }
@@ -119,6 +122,9 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
          std::string variableType = iVariable.name();
          Util::warning(variableType + " not available in '" + getFilename() + "'");
          for(int t = 0; t < getNumTime(); t++) {
+            // Don't overwrite fields that are already in memory
+            if(mFields[iVariable][t] != NULL)
+               continue;
             FieldPtr field = getEmptyField();
             addField(field, iVariable, t);
          }
-- 
2.43.0


From 845d7054faf940d617f5a9bed655ea745e0aa104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 080/132] fix: neighbourhood calibrator: threads do not share a
 counter without protection

---
 src/client/Calibrator/Neighbourhood.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index 324d29d..bda42cc 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -186,7 +186,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
          for(int i = 0; i < nLat; i++) {
             values[i].resize(nLon, 0);
          }
-         #pragma omp parallel for
+         #pragma omp parallel for reduction(+:count_stat)
          for(int i = 0; i < nLat; i++) {
             if(i < radius || i >= nLat - radius) {
                // Regular way
@@ -250,7 +250,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
          for(int i = 0; i < nLat; i++) {
             values[i].resize(nLon, 0);
          }
-         #pragma omp parallel for
+         #pragma omp parallel for reduction(+:count_stat)
          for(int i = 0; i < nLat; i++) {
             for(int j = 0; j < nLon; j++) {
                // Put neighbourhood into vector
-- 
2.43.0


From 4257276fdcb7b7904b7e5bdce19b702ac7871898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 081/132] fix: oi calibrator used the missing value of an
 elevation as an elevation

---
 src/client/Calibrator/Oi.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..0737461 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -459,7 +459,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int index = lLocIndices0[i];
                float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                float vdist = Util::MV;
-               if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+               if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                   vdist = gLocations[index].elev() - elev;
                float lafdist = 0;
                if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -576,7 +576,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                   lR(i, i) = gCi[index];
                   float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                   float vdist = Util::MV;
-                  if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+                  if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                      vdist = gLocations[index].elev() - elev;
                   float lafdist = 0;
                   if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -587,7 +587,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      int index_j = lLocIndices[j];
                      float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), gLocations[index_j].lat(), gLocations[index_j].lon(), true);
                      float vdist = Util::MV;
-                     if(Util::isValid(gLocations[index].elev() && Util::isValid(gLocations[index_j].elev())))
+                     if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
                      if(Util::isValid(gLafs[index]) && Util::isValid(laf))
-- 
2.43.0


From 9b0b8f55abe08566430196b1c4ea9162f30c21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 082/132] fix: oi calibrator tested the wrong land fraction for
 the correlation of two observations

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 0737461..3bb1197 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -590,7 +590,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
-                     if(Util::isValid(gLafs[index]) && Util::isValid(laf))
+                     if(Util::isValid(gLafs[index]) && Util::isValid(gLafs[index_j]))
                         lafdist = gLafs[index] - gLafs[index_j];
 
                      lP(i, j) = calcRho(hdist, vdist, lafdist, mRhoType);
-- 
2.43.0


From 36fe79c5c3b253f6676b3601d097b20b0f97dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 083/132] fix: oi calibrator left out grid points on one side
 of an observation

---
 src/client/Calibrator/Oi.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 3bb1197..3997eeb 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -212,7 +212,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    // Check that we do not run out of memory
    int gridpointRadius = Util::MV;
    if(isRegularGrid) {
-      gridpointRadius = radiusFactor * mHLength / gridSize;
+      // The observation can be half a gridbox away from its nearest neighbour
+      gridpointRadius = radiusFactor * mHLength / gridSize + 1;
 
       // When large radiuses are used, the process becomes memory-intensive. Try to fail here
       // if we expect to use more memory than desired. The true memory is roughly
@@ -269,8 +270,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                bool wrongLaf = Util::isValid(gLafs[i]) && mLandOnly && gLafs[i] == 0;
                if(!wrongLaf) {
                   if(isRegularGrid) {
-                     for(int y = std::max(0, Y - gridpointRadius); y < std::min(nY, Y + gridpointRadius); y++) {
-                        for(int x = std::max(0, X - gridpointRadius); x < std::min(nX, X + gridpointRadius); x++) {
+                     for(int y = std::max(0, Y - gridpointRadius); y <= std::min(nY - 1, Y + gridpointRadius); y++) {
+                        for(int x = std::max(0, X - gridpointRadius); x <= std::min(nX - 1, X + gridpointRadius); x++) {
                            gLocIndices[y][x].push_back(i);
                         }
                      }
-- 
2.43.0


From 67f021416d8ca312e378f810992cf5cd2d9283c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 084/132] fix: oi calibrator left out grid points in reach when
 the gridboxes are narrow

---
 src/client/Calibrator/Oi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 3997eeb..56c3846 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -167,7 +167,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    int gS = gLocations.size();
    float gridSize = Util::MV; // meters between each gridbox
    if(lats.size() > 1 && lats[0].size() > 1) {
-      gridSize = Util::getDistance(lats[0][0], lons[0][0], lats[1][0], lons[1][0]);
+      // Use the shortest side of the gridbox
+      gridSize = std::min(Util::getDistance(lats[0][0], lons[0][0], lats[1][0], lons[1][0]),
+                          Util::getDistance(lats[0][0], lons[0][0], lats[0][1], lons[0][1]));
       std::stringstream ss;
       ss << "Grid size: " << gridSize << " m";
       Util::info(ss.str());
-- 
2.43.0


From f9b679b49d11232e0fda3f20860745951b201086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 085/132] fix: oi calibrator cut off the soar correlation
 function far above minRho

---
 src/client/Calibrator/Oi.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 56c3846..380a8dd 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -208,6 +208,11 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
    // Calculate the factor that the horizontal decorrelation scale should be multiplied by
    // to get the localization radius. For minRho=0.0013, the factor is 3.64
    float radiusFactor = sqrt(-2*log(mMinRho));
+   if(mRhoType == RhoTypeSoar) {
+      // The soar function decreases more slowly
+      while((1 + radiusFactor) * exp(-radiusFactor) > mMinRho)
+         radiusFactor += 0.1;
+   }
 
    // Spread each observation out to this many gridpoints from the nearest neighbour
 
-- 
2.43.0


From 02a5fb9575d42e19b242324413c5c6c1c0515913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 086/132] fix: oi calibrator with an elevation gradient aborted
 on a missing elevation

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 380a8dd..90078b1 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -392,10 +392,10 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
-            assert(Util::isValid(nnElev));
-            assert(Util::isValid(gLocations[i].elev()));
-            float elevDiff = gLocations[i].elev() - nnElev;
-            elevCorr = mElevGradient * elevDiff;
+            if(Util::isValid(nnElev) && Util::isValid(gLocations[i].elev())) {
+               float elevDiff = gLocations[i].elev() - nnElev;
+               elevCorr = mElevGradient * elevDiff;
+            }
          }
          float total = 0;
          int count = 0;
-- 
2.43.0


From 025f4bf5856bc78a6cfd1ee8495afff186bd5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 087/132] fix: oi calibrator compared member increments with
 the innovations of other members

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 90078b1..8e0cc96 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -947,8 +947,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(!mExtrapolate) {
                         // Don't allow a final increment that is larger than any increment
                         // at station points
-                        float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                        float minInc = arma::min(lObs - (lY[e] + lYhat));
+                        float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                        float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                         if(x == mX && y == mY) {
                            std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                         }
@@ -961,13 +961,13 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(x == mX && y == mY) {
                            std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                         }
-                        if(maxInc > 0 && memberIncrement > maxInc) {
+                        if(maxInc >= 0 && memberIncrement > maxInc) {
                            currIncrement = maxInc + X(e);
                         }
                         else if(maxInc < 0 && memberIncrement > 0) {
                            currIncrement = 0 + X(e);
                         }
-                        else if(minInc < 0 && memberIncrement < minInc) {
+                        else if(minInc <= 0 && memberIncrement < minInc) {
                            currIncrement = minInc + X(e);
                         }
                         else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From a712dc76bd168882b47e349cfc6736f6c5ad06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 088/132] fix: oi calibrator included incomplete members in the
 mean at the observations

---
 src/client/Calibrator/Oi.cpp | 61 +++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 8e0cc96..affcbda 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -384,11 +384,29 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
-      // Compute Y
+      // Calculate number of valid members
+      int nValidEns = 0;
+      std::vector<int> validEns;
+      for(int e = 0; e < nEns; e++) {
+         int numInvalid = 0;
+         for(int x = 0; x < nX; x++) {
+            for(int y = 0; y < nY; y++) {
+               float value = (*field)(y, x, e);
+               if(!Util::isValid(value))
+                  numInvalid++;
+            }
+         }
+         if(numInvalid == 0) {
+            validEns.push_back(e);
+            nValidEns++;
+         }
+      }
+
+      // Compute Y, ignoring members with missing values
       vec2 gY(gS);
       std::vector<float> gYhat(gS);
       for(int i = 0; i < gS; i++) {
-         gY[i].resize(nEns, 0);
+         gY[i].resize(nEns, Util::MV);
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
@@ -399,24 +417,18 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
          float total = 0;
          int count = 0;
-         for(int e = 0; e < nEns; e++) {
-            float value = (*field)(gYi[i], gXi[i], e);
-            if(Util::isValid(value)) {
-               value += elevCorr;
-               gY[i][e] = value;
-               total += value;
-               count++;
-            }
+         for(int k = 0; k < nValidEns; k++) {
+            int e = validEns[k];
+            float value = (*field)(gYi[i], gXi[i], e) + elevCorr;
+            gY[i][e] = value;
+            total += value;
+            count++;
          }
          float mean = Util::MV;
          if(count > 0)
             mean = total / count;
-         for(int e = 0; e < nEns; e++) {
-            float value = gY[i][e];
-            if(Util::isValid(value) && Util::isValid(mean)) {
-               gY[i][e] -= mean;
-            }
-         }
+         for(int k = 0; k < nValidEns; k++)
+            gY[i][validEns[k]] -= mean;
          gYhat[i] = mean;
          if(useBias && Util::isValid(gYhat[i])) {
             float currBias = (*bias)(gYi[i], gXi[i], 0);
@@ -424,23 +436,6 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
-      // Calculate number of valid members
-      int nValidEns = 0;
-      std::vector<int> validEns;
-      for(int e = 0; e < nEns; e++) {
-         int numInvalid = 0;
-         for(int x = 0; x < nX; x++) {
-            for(int y = 0; y < nY; y++) {
-               float value = (*field)(y, x, e);
-               if(!Util::isValid(value))
-                  numInvalid++;
-            }
-         }
-         if(numInvalid == 0) {
-            validEns.push_back(e);
-            nValidEns++;
-         }
-      }
       std::cout << "Number of valid ensemble members: " << nValidEns << std::endl;
       bool singleMemberMode = !mUseEns || nValidEns < mMinValidEns;
 
-- 
2.43.0


From a6bc814aef2bed01fe392906b88ba2249f2e1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 089/132] fix: zaga calibrator with 6h=1 but no popVariable
 read before the first time

---
 src/client/Calibrator/Zaga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..e402c33 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -55,7 +55,8 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
 
    int startTime = 0;
    int timeWindow = 1;
-   if(m6h) {
+   // Only POP is based on several hours
+   if(m6h && mPopVariable != "") {
       startTime = 5;
       timeWindow = 6;
    }
-- 
2.43.0


From f4ce7ef24102a719596fefef5a427ba0266cdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 090/132] fix: zaga calibrator left old probabilities and
 quantiles where the ensemble is incomplete

---
 src/client/Calibrator/Zaga.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index e402c33..fd12379 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -220,6 +220,15 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                   // One or more members are missing, don't calibrate
                   for(int e = 0; e < nEns; e++) {
                      precip(i,j,e) = precipRaw[e];
+                     if(mPopVariable != "") {
+                        (*pop)(i,j,e) = Util::MV;
+                        if(Util::isValid(mPrecipLowQuantile))
+                           (*precipLow)(i,j,e) = Util::MV;
+                        if(Util::isValid(mPrecipMiddleQuantile))
+                           (*precipMiddle)(i,j,e) = Util::MV;
+                        if(Util::isValid(mPrecipHighQuantile))
+                           (*precipHigh)(i,j,e) = Util::MV;
+                     }
                   }
                }
             }
-- 
2.43.0


From 31b0cabd2a9754f52100a76c0777b91aebde8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 091/132] fix: zaga and gaussian calibrators used calibrated
 values in the neighbourhood

---
 src/client/Calibrator/Gaussian.cpp | 4 +++-
 src/client/Calibrator/Zaga.cpp     | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..585268e 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      // Cells in the neighbourhood must not have been calibrated already
+      const Field input = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +57,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = input(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += value*value;
diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index fd12379..e18b368 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -71,6 +71,9 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
       int numInvalidRaw = 0;
       int numInvalidCal = 0;
 
+      // Cells in the neighbourhood must not have been calibrated already
+      const Field precipInput = *precips[t];
+
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
          parametersGlobal = iParameterFile->getParameters(t);
@@ -122,7 +125,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& precip = (tt == t) ? precipInput : *precips[tt];
 
                            float value = precip(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
-- 
2.43.0


From db7470041e534616825d5d9d3270858e94423a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 092/132] fix: bct calibrator did not accept its option
 maxEnsMean

---
 src/client/Calibrator/Bct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
-- 
2.43.0


From 691532d229488f1fbdf12e6a1d075794633e5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 093/132] fix: optimal threshold compared scores of opposite
 signs when looking for optima at the boundary

---
 src/api/metric_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index e1bd758..e0687d1 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -177,7 +177,7 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     if(remove_at_boundary) {
         float s0 = - func(data.min);
         float s1 = - func(data.max);
-        if (fabs(r.second - s0) < 0.001 || fabs(r.second - s1) < 0.001)
+        if (fabs(score - s0) < 0.001 || fabs(score - s1) < 0.001)
             x = gridpp::MV;
     }
     return x;
-- 
2.43.0


From dabd2197b5031da9640bc8c112ec005dec39f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 094/132] fix: optimal threshold read beyond the forecasts when
 there were more references

---
 src/api/metric_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index e0687d1..558fed4 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -127,6 +127,9 @@ vec gridpp::metric_optimizer_curve(const vec& ref, const vec& fcst, const vec& t
 }
 
 float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float threshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
+
     /*  For large vectors, the expense comes at 1) finding the starting point and 2) finding the
      *  optimal point.
      */
-- 
2.43.0


From 3021e0b2014e7a1144d31f610e99ea39d33f3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 095/132] fix: inverse gamma distribution read beyond its
 arguments when sizes differ

---
 src/api/distribution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..f7a8a7d 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("levels, shape and scale not the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
-- 
2.43.0


From 651c27d996a97482cfce1c778f108a2acf4387b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 096/132] fix: inverse gamma distribution aborted the program
 for level 1

---
 src/api/distribution.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index f7a8a7d..b282626 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -28,8 +28,11 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
         boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
-        float value = boost::math::quantile(m_gamma_dist, levels[i]);
-        results[i] = value;
+        // The distribution is unbounded above (boost throws an exception in this case)
+        if(levels[i] == 1)
+            results[i] = std::numeric_limits<float>::infinity();
+        else
+            results[i] = boost::math::quantile(m_gamma_dist, levels[i]);
     }
     return results;
 }
-- 
2.43.0


From 06db507d8aff60e00edc1be7670cb404a35e82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 097/132] fix: NetCDF files whose fill value is -999 or NaN got
 scaled missing values

---
 src/client/File/Netcdf.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..b041f0b 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1,5 +1,6 @@
 #include "Netcdf.h"
 #include <math.h>
+#include <cmath>
 #include <netcdf.h>
 #include <assert.h>
 #include <stdlib.h>
@@ -319,8 +320,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
                indices[xPos] = x;
             int i = getIndex(countVector, indices);
             float value = values[i];
-            if(Util::isValid(MV) && value == MV) {
-               // Field has missing value indicator and the value is missing
+            if(value == MV || std::isnan(value)) {
+               // The value is missing (also when the indicator is the same as our own, or is NaN)
                // Save values using our own internal missing value indicator
                value = Util::MV;
             }
@@ -502,8 +503,8 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
                      float value = (*field)(y, x, e);
-                     if(Util::isValid(MV) && !Util::isValid(value)) {
-                        // Field has missing value indicator and the value is missing
+                     if(!Util::isValid(value)) {
+                        // The value is missing
                         // Save values using the file's missing indicator value
                         value = MV;
                      }
@@ -796,7 +797,7 @@ void FileNetcdf::writeAltitude() const {
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          float elev = elevs[i][j];
-         if(Util::isValid(MV) && !Util::isValid(elev))
+         if(!Util::isValid(elev))
             elev = MV;
          // Latitude dimension is ordered first
          if(indexY < indexX) {
-- 
2.43.0


From bdbb3b210d3c17395397071c0c9694b5abc65894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 098/132] fix: NetCDF variables with a level were read from
 that level but written to the first

---
 src/client/File/Netcdf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index b041f0b..368ac3e 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -449,6 +449,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       int yPos = Util::MV;
       int xPos = Util::MV;
       int timePos = Util::MV;
+      int levelPos = Util::MV;
       for(int d = 0; d < dims.size(); d++) {
          int dim = dims[d];
          count[d] = 1;
@@ -467,12 +468,18 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
             count[d] = getDimSize(dim);
             xPos = d;
          }
+         else if(Util::isValid((int) variable.level()) && getDimSize(dim) > 1) {
+            // Write to the same level as is read from
+            levelPos = d;
+         }
       }
 
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
          for(int d = 0; d < dims.size(); d++)
             start[d] = 0;
+         if(Util::isValid(levelPos))
+            start[levelPos] = variable.level();
          if(Util::isValid(timePos))
             start[timePos] = t;
 
-- 
2.43.0


From 66fde8d7c8f0ec4eb995435be2fe67ed11814117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 099/132] fix: NetCDF files with a scalar time and no reference
 time got no reference time

---
 src/client/File/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 368ac3e..eccf78b 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -186,7 +186,7 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          std::vector<double> times(1, time);
          setTimes(times);
       }
-      if(size > 0 && !Util::isValid(getReferenceTime())) {
+      if(getNumTime() > 0 && !Util::isValid(getReferenceTime())) {
          std::stringstream ss;
          ss << "File does not contain reference time, using the first timestep as the reference time";
          Util::warning(ss.str());
-- 
2.43.0


From f9ec973037702a7502f33ded8d97236b87d1ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 100/132] fix: NetCDF parameter files were not written with the
 dimension names of the options

---
 src/client/ParameterFile/Netcdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..2bb3f10 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -312,9 +312,9 @@ void ParameterFileNetcdf::write() const {
 
    // Create dimensions
    int dTime = createDim(mFile, "time", nTime);
-   int dLon  = createDim(mFile, "lon", nLon);
-   int dLat  = createDim(mFile, "lat", nLat);
-   int dCoeff = createDim(mFile, "coeff", nCoeff);
+   int dLon  = createDim(mFile, mXDimName != "" ? mXDimName : "lon", nLon);
+   int dLat  = createDim(mFile, mYDimName != "" ? mYDimName : "lat", nLat);
+   int dCoeff = createDim(mFile, mDimName, nCoeff);
    int dims[4]  = {dTime, dLat, dLon, dCoeff};
    int var = Util::MV;
    int status = nc_def_var(mFile, mVarName.c_str(), NC_FLOAT, 4, dims, &var);
-- 
2.43.0


From 42df4ea3e69a44cfc5f7cccb1d9d0b78b51bddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 101/132] fix: NetCDF parameter files could not be written when
 the first place had no parameters

---
 src/client/ParameterFile/Netcdf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index 2bb3f10..0e8290d 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -298,8 +298,10 @@ void ParameterFileNetcdf::write() const {
    }
    int nCoeff = 0;
    for(int i = 0; i < times.size(); i++) {
-      Parameters par0 = getParameters(times[i], locations[0], false);
-      nCoeff = std::max(nCoeff, par0.size());
+      for(int j = 0; j < locations.size(); j++) {
+         Parameters par0 = getParameters(times[i], locations[j], false);
+         nCoeff = std::max(nCoeff, par0.size());
+      }
    }
 
    if(nCoeff == 0) {
-- 
2.43.0


From 372ada23b324d6a783779dad5afcdb141e8d7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 102/132] fix: NetCDF parameter files with places that vary in
 time overflowed a buffer

---
 src/client/ParameterFile/Netcdf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index 0e8290d..d3d4256 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -565,7 +565,8 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
    }
    // We have a projected grid, where lat and lons are provided for each grid point
    else {
-      long count[numDims];
+      size_t count[numDims];
+      size_t start[numDims];
       int size = 1;
       int indexLat = Util::MV;
       int indexLon = Util::MV;
@@ -584,6 +585,7 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
          else {
             count[i] = 1;
          }
+         start[i] = 0;
       }
       if(!Util::isValid(indexLat) || !Util::isValid(indexLon)) {
          std::stringstream ss;
@@ -591,7 +593,7 @@ vec2 ParameterFileNetcdf::getGridValues(int iFile, int iVar) const {
          Util::error(ss.str());
       }
       float* values = new float[size];
-      nc_get_var_float(iFile, iVar, values);
+      nc_get_vara_float(iFile, iVar, start, count, values);
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             // Latitude dimension is ordered first
-- 
2.43.0


From 27dce054a3d0a36607711bab7a492ff6ca3799ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 103/132] fix: missing altitudes along one dimension in NetCDF
 files are missing, as in matrices

---
 src/client/File/Netcdf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index eccf78b..eccfbab 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1246,6 +1246,8 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
+            if(value == MV)
+               value = Util::MV;
             grid[i][j] = value;
          }
       }
-- 
2.43.0


From ed1157c75e3cb3fa6929ca5fde3206d7df07dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 104/132] fix: window mean and sum keep the sums in double
 precision

---
 src/api/window.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index bb7813c..03bb118 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -31,7 +31,8 @@ vec2 gridpp::window(const vec2& array,
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
         if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
+            // Use double precision, since windows are differences of long sums
+            std::vector<double> values(array[y].size(), 0);
             vec counts = vec(array[y].size(), 0);
 
             for(int x = 0; x < array[y].size(); x++) {
@@ -70,7 +71,7 @@ vec2 gridpp::window(const vec2& array,
 
                 // Number of valid values, and their sum, in the window
                 float count = counts[end];
-                float sum = values[end];
+                double sum = values[end];
                 if(start > 0) {
                     count -= counts[start - 1];
                     sum -= values[start - 1];
-- 
2.43.0


From 26054859a13be76fc6d066b9fb92eb121cf2fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 105/132] fix: client neighbourhood mean and sum keep the sums
 in double precision

---
 src/client/Calibrator/Neighbourhood.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Neighbourhood.cpp b/src/client/Calibrator/Neighbourhood.cpp
index bda42cc..945990f 100644
--- a/src/client/Calibrator/Neighbourhood.cpp
+++ b/src/client/Calibrator/Neighbourhood.cpp
@@ -80,7 +80,8 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
    int count_stat = 0;
    for(int e = 0; e < nEns; e++) {
       if(mFast && (mStatType == Util::StatTypeMean || mStatType == Util::StatTypeSum)) {
-         vec2 values;
+         // Use double precision, since neighbourhoods are differences of large sums
+         std::vector<std::vector<double> > values;
          vec2 counts;
          values.resize(nLat);
          counts.resize(nLat);
@@ -142,10 +143,10 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                int j1 = std::min(nLon-1, j + radius);
                int i0 = i - radius - 1;
                int j0 = j - radius - 1;
-               float value11 = values[i1][j1];
-               float value00 = 0;
-               float value10 = 0;
-               float value01 = 0;
+               double value11 = values[i1][j1];
+               double value00 = 0;
+               double value10 = 0;
+               double value01 = 0;
                int count11 = counts[i1][j1];
                int count00 = 0;
                int count10 = 0;
@@ -166,7 +167,7 @@ void CalibratorNeighbourhood::calibrateField(const Field& iInput, Field& iOutput
                   value01 = values[i0][j1];
                   count01 = counts[i0][j1];
                }
-               float value = value11 + value00 - value10 - value01;
+               double value = value11 + value00 - value10 - value01;
                int count = count11 + count00 - count10 - count01;
                if(count > 0) {
                   if(mStatType == Util::StatTypeMean) {
-- 
2.43.0


From 364e08b58cb1bf7bc28e2f3388d7ed6f8737655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:55 +0000
Subject: [PATCH 106/132] fix: text parameter files have their header on one
 line

---
 src/client/ParameterFile/Text.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..3193d80 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -181,12 +181,13 @@ void ParameterFileText::write(const std::string& iFilename) const {
    std::map<Location, std::vector<Parameters> >::const_iterator it;
    // Loop over times
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
+      ofs << "time";
    for(int i = 0; i < getNumParameters(); i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
-- 
2.43.0


From 446b35b273cb68d457f7cc189e49a75e8de1ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 107/132] fix: a point file without times needs the time option

---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index d547d69..bc2044a 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -71,7 +71,7 @@ FilePoint::FilePoint(std::string iFilename, const Options& iOptions) :
 
    // Otherwise get the time or ensemble dimension from options
    iOptions.getValue("ens", mNEns);
-   int numTimes;
+   int numTimes = times.size() > 0 ? times.size() : Util::MV;
    if(iOptions.getValue("time", numTimes)) {
       times.clear();
       // Empty file, probably used as output only
-- 
2.43.0


From 278f03b9a36bff8c16791f676d241e3981657d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 108/132] fix: rows of point files are found by their time, not
 by its index

---
 src/client/File/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Point.cpp b/src/client/File/Point.cpp
index bc2044a..a6ef5ba 100644
--- a/src/client/File/Point.cpp
+++ b/src/client/File/Point.cpp
@@ -105,7 +105,7 @@ FieldPtr FilePoint::getFieldCore(const Variable& iVariable, int iTime) const {
          double time;
          ss >> time;
 
-         if(time == iTime) {
+         if(time == getTimes()[iTime]) {
             double value;
             int e = 0;
             while(ss >> value) {
-- 
2.43.0


From 8fe2216c378e09fa2c6f428453bfb57e62464d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:27 +0000
Subject: [PATCH 109/132] fix: optimal interpolation with an empty background
 field read outside it

---
 src/api/oi.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index c4072d3..58ed487 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -41,9 +41,9 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        ss << "Input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != points.size()) {
@@ -63,7 +63,7 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = nY > 0 ? background[0].size() : 0;
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
@@ -383,12 +383,12 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
+        ss << "Input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
-    if(bvariance.size() != bgrid.size()[0] || bvariance[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, bvariance)) {
         std::stringstream ss;
         ss << "Background variance is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
@@ -410,7 +410,7 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = nY > 0 ? background[0].size() : 0;
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
-- 
2.43.0


From 70b54e873be6724b27a0f57c6b2543142337cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:27 +0000
Subject: [PATCH 110/132] fix: ensemble optimal interpolation with an empty
 background field read outside it

---
 src/api/oi_ensi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 60be7f0..d6e52c2 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -63,7 +63,7 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     }
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     int nE = background[0][0].size();
-- 
2.43.0


From d3475cb12f541f2c973c34b76c888a57d460e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 111/132] fix: multi-variate ensemble interpolation with an
 empty input field read outside it

---
 src/api/oi_ensi_multi.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 84490f7..942b9b9 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -82,35 +82,35 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -183,25 +183,25 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS || pobs[0].size() != nE) {
         std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Observations and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pratios.size() != nS) {
@@ -274,30 +274,30 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
     if(background.size() != nY || background[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    int nE = background[0][0].size();
     if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
+        ss << "Input background_corr field is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
         throw std::invalid_argument(ss.str());
     }
     if(bratios.size() != nY || bratios[0].size() != nX) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground.size() != nS || pbackground[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
         std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input pbackground_corr field at observation location and points (" << nS << "," << nE << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != nS) {
-- 
2.43.0


From c35e9a2a43750b776bfeaf4e6adf4014c8e095f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 112/132] fix: smart downscaling read outside values of another
 size than the grid

---
 src/api/smart.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 8bd6b4b..25cce8b 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,9 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
-- 
2.43.0


From 8e15e7631efd1269bbe78a1f4d6eb64a7de11147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 113/132] fix: get_optimal_threshold never returned without
 valid forecasts or with an infinite one

---
 src/api/metric_optimizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 558fed4..bb011b0 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -33,6 +33,8 @@ namespace {
                 min = gridpp::MV;
                 max = gridpp::MV;
                 for(int i = 0; i < N; i++) {
+                    if(!gridpp::is_valid(fcst[i]))
+                        continue;
                     if(!gridpp::is_valid(min) || fcst[i] < min) {
                         min = fcst[i];
                     }
@@ -139,6 +141,9 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     // int bits = std::numeric_limits<double>::digits;
     int bits = 32;
     Data data(ref, fcst, threshold, metric);
+    // Without any valid forecasts, there is no threshold to search for
+    if(!gridpp::is_valid(data.min))
+        return gridpp::MV;
     Score_func func(data);
 
     /* Compute values at even intervals, to find where to start optimization search */
-- 
2.43.0


From 59664e96c65391614395ba03692a19f90abbc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 114/132] fix: interpolation read outside the nodes when the
 first or last ones are missing

---
 src/api/util.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index db52f1b..0c537bb 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -339,7 +339,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -358,7 +358,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -392,6 +392,13 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    // The nodes on one side can all be missing
+    if(i0 < 0 && i1 < 0)
+        return gridpp::MV;
+    if(i0 < 0)
+        return iY[i1];
+    if(i1 < 0)
+        return iY[i0];
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From dd02670197a6c56b31776c0c4be75aa07826ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 115/132] fix: distance to a negative number of neighbours
 ended the program

---
 src/api/distance.cpp | 8 ++++++++
 src/api/kdtree.cpp   | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/api/distance.cpp b/src/api/distance.cpp
index 4a3f9d3..e8e4af4 100644
--- a/src/api/distance.cpp
+++ b/src/api/distance.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec gridpp::distance(const Grid& grid, const Points& points, int num) {
     if(grid.get_coordinate_type() != points.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     int size = points.size();
     vec output(size);
@@ -33,6 +35,8 @@ vec gridpp::distance(const Grid& grid, const Points& points, int num) {
 vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
     if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     ivec size = ogrid.size();
     vec2 output(size[0]);
@@ -65,6 +69,8 @@ vec2 gridpp::distance(const Grid& igrid, const Grid& ogrid, int num) {
 vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
     if(points.get_coordinate_type() != grid.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     ivec size = grid.size();
     vec2 output(size[0]);
@@ -96,6 +102,8 @@ vec2 gridpp::distance(const Points& points, const Grid& grid, int num) {
 vec gridpp::distance(const Points& ipoints, const Points& opoints, int num) {
     if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
         throw std::invalid_argument("Incompatible coordinate types");
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
 
     int size = opoints.size();
     vec output(size);
diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 4e272eb..a96caf6 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -80,6 +80,8 @@ ivec gridpp::KDTree::get_neighbours(float lat, float lon, float radius, bool inc
 }
 
 ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool include_match) const {
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
     float x, y, z;
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
     point p(x, y, z);
@@ -95,7 +97,7 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     int num_found = results.size();
 
     ivec ret;
-    ret.reserve(num);
+    ret.reserve(num_found);
     for(int i = 0; i < num_found; i++) {
         ret.push_back(results[i].second);
     }
-- 
2.43.0


From 5dff9223e51503efc170c33cd20a12d1d698673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:51 +0000
Subject: [PATCH 116/132] fix: neighbourhood with an unknown statistic ended
 the program

---
 src/api/neighbourhood.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 5611109..69f1912 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -588,6 +588,8 @@ namespace {
         // Check here, since exceptions cannot leave the parallel region below
         if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
             throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
+        if(statistic != gridpp::Quantile)
+            gridpp::calc_statistic(vec(), statistic);
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -636,6 +638,8 @@ namespace {
         // Check here, since exceptions cannot leave the parallel region below
         if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
             throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
+        if(statistic != gridpp::Quantile)
+            gridpp::calc_statistic(vec(), statistic);
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-- 
2.43.0


From 4c1be4737c3888464498ca63ce5dcdfb6bf072cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:51 +0000
Subject: [PATCH 117/132] fix: gridding with a quantile or unknown statistic
 ended the program

---
 src/api/gridding.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index afd3860..e412b13 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -10,6 +10,8 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Reject statistics that cannot be computed here, since exceptions cannot leave the parallel region below
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -40,6 +42,8 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Reject statistics that cannot be computed here, since exceptions cannot leave the parallel region below
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = opoints.get_lats();
@@ -65,6 +69,8 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Reject statistics that cannot be computed here, since exceptions cannot leave the parallel region below
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -105,6 +111,8 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Reject statistics that cannot be computed here, since exceptions cannot leave the parallel region below
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = ipoints.get_lats();
-- 
2.43.0


From 202b532bf14ce08c99027fad9c2ffb1ff3707aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:51 +0000
Subject: [PATCH 118/132] fix: mask_threshold_downscale_consensus with an
 unknown statistic ended the program

---
 src/api/mask_threshold_downscale_consensus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 57281a8..0b7db55 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -33,6 +33,8 @@ namespace {
             throw std::invalid_argument("Input values do not have the same size");
         if(statistic == gridpp::Quantile && gridpp::is_valid(quantile) && (quantile < 0 || quantile > 1))
             throw std::invalid_argument("Quantile level must be between 0 and 1");
+        if(statistic != gridpp::Quantile)
+            gridpp::calc_statistic(vec(), statistic);
         int nEns = ivalues_true[0][0].size();
 
         vec2 output(nLat);
-- 
2.43.0


From 800431977d5130905848daee1aba2731dc7e8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:51 +0000
Subject: [PATCH 119/132] fix: mask_threshold_downscale_quantile with an
 infinite level ended the program

---
 src/api/mask_threshold_downscale_consensus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 0b7db55..f21ef44 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -31,7 +31,7 @@ namespace {
             throw std::invalid_argument("Input grid size is not the same as values");
         if(!gridpp::compatible_size(ivalues_true, ivalues_false) || !gridpp::compatible_size(ivalues_true, threshold_values))
             throw std::invalid_argument("Input values do not have the same size");
-        if(statistic == gridpp::Quantile && gridpp::is_valid(quantile) && (quantile < 0 || quantile > 1))
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
             throw std::invalid_argument("Quantile level must be between 0 and 1");
         if(statistic != gridpp::Quantile)
             gridpp::calc_statistic(vec(), statistic);
-- 
2.43.0


From bea7fb608323745d8d022b5eb1b21477c9fb5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 120/132] fix: window with a quantile or unknown statistic
 ended the program

---
 src/api/window.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index 03bb118..3748cde 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -27,6 +27,9 @@ vec2 gridpp::window(const vec2& array,
         throw std::invalid_argument("Length variable must be an odd number");
     }
 
+    // Rejects unknown statistics, since exceptions cannot leave the parallel region below
+    gridpp::calc_statistic(vec(), statistic);
+
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
-- 
2.43.0


From 0efc964d12469da7bf51e57b43facdb77285f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 121/132] fix: neighbourhood_score with an unknown metric ended
 the program

---
 src/api/neighbourhood_score.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 5e2a8f9..474bc60 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -23,6 +23,9 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
     vec2 c = gridpp::init_vec2(nY, nX, 0);
     vec2 d = gridpp::init_vec2(nY, nX, 0);
 
+    // Rejects unknown metrics, since exceptions cannot leave the parallel region below
+    gridpp::calc_score(0, 0, 0, 0, metric);
+
     // Gridding of observations on the the forecast grid
     vec2 ref_grid = gridpp::gridding_nearest(grid, points, ref, 1, gridpp::Mean);
 
-- 
2.43.0


From 2599196ad40cc6e5fe6f1db559c306e662297f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 122/132] fix: applying a curve with an unknown extrapolation
 policy ended the program

---
 src/api/curve.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 2a643a0..1a10272 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -85,11 +85,21 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
     int N = fcst.size();
     vec output(N, gridpp::MV);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        float input = fcst[i];
-        output[i] = apply_curve(input, curve_ref, curve_fcst, policy_below, policy_above);
+        try {
+            float input = fcst[i];
+            output[i] = apply_curve(input, curve_ref, curve_fcst, policy_below, policy_above);
+        }
+        catch(...) {
+            // Exceptions cannot be thrown out of the parallel region
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 // QQ on a grid
@@ -131,13 +141,23 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         output[y].resize(nX, gridpp::MV);
     }
 
+    std::exception_ptr error;
     #pragma omp parallel for collapse(2)
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
-            float input = fcst[y][x];
-            output[y][x] = apply_curve(input, curve_ref[y][x], curve_fcst[y][x], policy_below, policy_above);
+            try {
+                float input = fcst[y][x];
+                output[y][x] = apply_curve(input, curve_ref[y][x], curve_fcst[y][x], policy_below, policy_above);
+            }
+            catch(...) {
+                // Exceptions cannot be thrown out of the parallel region
+                #pragma omp critical
+                error = std::current_exception();
+            }
         }
     }
+    if(error)
+        std::rethrow_exception(error);
     return output;
 }
 vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
-- 
2.43.0


From 8ab180e2d838cfa893731189307a6ff945498cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 123/132] fix: gamma_inv with an extreme shape ended the
 program

---
 src/api/distribution.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index b282626..f722676 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -25,14 +25,24 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     }
     vec results(N);
 
+    std::exception_ptr error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
-        // The distribution is unbounded above (boost throws an exception in this case)
-        if(levels[i] == 1)
-            results[i] = std::numeric_limits<float>::infinity();
-        else
-            results[i] = boost::math::quantile(m_gamma_dist, levels[i]);
+        try {
+            boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
+            // The distribution is unbounded above (boost throws an exception in this case)
+            if(levels[i] == 1)
+                results[i] = std::numeric_limits<float>::infinity();
+            else
+                results[i] = boost::math::quantile(m_gamma_dist, levels[i]);
+        }
+        catch(...) {
+            // Exceptions cannot be thrown out of the parallel region
+            #pragma omp critical
+            error = std::current_exception();
+        }
     }
+    if(error)
+        std::rethrow_exception(error);
     return results;
 }
-- 
2.43.0


From 0710aff9855bab09d4d006f94a6b4d6cda47fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 124/132] fix: neighbourhood with a half-width near the largest
 integer left out the field

---
 src/api/neighbourhood.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 69f1912..c6afca3 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -60,6 +60,8 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
     bool fast = true;
     int nY = input.size();
     int nX = input[0].size();
+    // Larger windows cover the whole field anyway (and could overflow)
+    halfwidth = std::min(halfwidth, std::max(nY, nX));
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
@@ -599,6 +601,8 @@ namespace {
         int nX = input[0].size();
         if(nX == 0)
             return vec2(0);
+        // Larger windows cover the whole field anyway (and could overflow)
+        halfwidth = std::min(halfwidth, std::max(nY, nX));
         vec2 output(nY);
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
@@ -652,6 +656,8 @@ namespace {
         int nEns = input[0][0].size();
         if(nEns == 0)
             return vec2();
+        // Larger windows cover the whole field anyway (and could overflow)
+        halfwidth = std::min(halfwidth, std::max(nY, nX));
         vec2 output(nY);
         for(int y = 0; y < nY; y++) {
             output[y].resize(nX, gridpp::MV);
-- 
2.43.0


From 5ca374bfdb936c6bb0bbc479855fb54417c67940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 125/132] fix: calc_gradient with a half-width near the largest
 integer left out the field

---
 src/api/calc_gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index b9233d4..07e9cc9 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -20,6 +20,9 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
     int nY = base.size();
     int nX = base[0].size();
 
+    // Larger windows cover the whole field anyway (and could overflow)
+    halfwidth = std::min(halfwidth, std::max(std::max(nY, nX), 1));
+
     vec2 output = gridpp::init_vec2(nY, nX, default_gradient);
 
     // Min Max Gradient 
-- 
2.43.0


From 5af42e1a43d9557a573c40bb3bfc3e95b92e77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 126/132] fix: neighbourhood_search with a half-width near the
 largest integer left out the field

---
 src/api/neighbourhood_search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 2f33a1f..e7f04be 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -29,6 +29,9 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     int nY = array.size();
     int nX = array[0].size();
 
+    // Larger windows cover the whole field anyway (and could overflow)
+    halfwidth = std::min(halfwidth, std::max(nY, nX));
+
     for(int y = 0; y < array.size(); y++) {
         for(int x = 0; x < array[y].size(); x++) {
             /* Loop over each element in array */
-- 
2.43.0


From b82ca8bd90f9e92609af04c70e10d3942f445b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 127/132] fix: the phase calibrator demanded a parameter file
 that it does not use

---
 src/client/Calibrator/Phase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.h b/src/client/Calibrator/Phase.h
index a503a34..a04a8bf 100644
--- a/src/client/Calibrator/Phase.h
+++ b/src/client/Calibrator/Phase.h
@@ -9,6 +9,7 @@ class CalibratorPhase : public Calibrator {
       CalibratorPhase(const Variable& iVariable, const Options& iOptions);
       static std::string description(bool full=true);
       std::string name() const {return "phase";};
+      bool requiresParameterFile() const { return false;};
 
       //! Precipitation phase
       enum Phase {
-- 
2.43.0


From b8824dfe89336b9c82de7be3963201f9adb7b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 128/132] fix: diagnoseWind silently computed nothing for an
 unrecognised variable

---
 src/client/Calibrator/DiagnoseWind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseWind.cpp b/src/client/Calibrator/DiagnoseWind.cpp
index 6448d03..e8c2355 100644
--- a/src/client/Calibrator/DiagnoseWind.cpp
+++ b/src/client/Calibrator/DiagnoseWind.cpp
@@ -20,6 +20,9 @@ CalibratorDiagnoseWind::CalibratorDiagnoseWind(const Variable& iVariable, const
    if((mCompute == "speed" || mCompute == "direction") && (mX == "" || mY == "")) {
       Util::error("Both x and y variables must be specified");
    }
+   if(mCompute != "x" && mCompute != "y" && mCompute != "speed" && mCompute != "direction") {
+      Util::error("CalibratorDiagnoseWind: 'compute' must be one of x, y, speed, or direction");
+   }
 }
 bool CalibratorDiagnoseWind::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
    int nY = iFile.getNumY();
-- 
2.43.0


From 56f8171e283a8672b4e23abac956444f2ce1a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 129/132] fix: diagnoseHumidity silently computed nothing for
 an unrecognised variable

---
 src/client/Calibrator/DiagnoseHumidity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/DiagnoseHumidity.cpp b/src/client/Calibrator/DiagnoseHumidity.cpp
index 7cd46a6..5ff3b02 100644
--- a/src/client/Calibrator/DiagnoseHumidity.cpp
+++ b/src/client/Calibrator/DiagnoseHumidity.cpp
@@ -21,6 +21,8 @@ CalibratorDiagnoseHumidity::CalibratorDiagnoseHumidity(const Variable& iVariable
       Util::error("Rh requires dewpoint=");
    if(mCompute == "wetbulb" && mRh == "")
       Util::error("Wetbulb requires rh=");
+   if(mCompute != "dewpoint" && mCompute != "rh" && mCompute != "wetbulb")
+      Util::error("CalibratorDiagnoseHumidity: 'compute' must be one of dewpoint, rh, or wetbulb");
 }
 bool CalibratorDiagnoseHumidity::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
    int nY = iFile.getNumY();
-- 
2.43.0


From aaba5c8caf602794a2735e6757d80f1969c6913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:53 +0000
Subject: [PATCH 130/132] fix: zaga training truncated the fraction of small
 members to 0 or 1

---
 src/client/Calibrator/Zaga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index e18b368..de8c69d 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -434,7 +434,7 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
          }
       }
       if(valid > 0)
-         frac[i] = total / valid;
+         frac[i] = (float) total / valid;
       else
          abort();
       assert(frac[i] >= 0 && frac[i] <= 1);
-- 
2.43.0


From 79fae1adb2e6347c84667dab9b8a9ae653fe09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:53 +0000
Subject: [PATCH 131/132] fix: zaga training aborted on missing observations
 and ensembles

---
 src/client/Calibrator/Zaga.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index de8c69d..c82d081 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -417,14 +417,9 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
       return Parameters();
    }
    std::vector<float> obs, mean, frac;
-   obs.resize(iData.size(), Util::MV);
-   mean.resize(iData.size(), Util::MV);
-   frac.resize(iData.size(), Util::MV);
    // Compute predictors in model
    for(int i = 0; i < iData.size(); i++) {
-      obs[i] = iData[i].first;
       std::vector<float> ens = iData[i].second;
-      mean[i] = Util::calculateStat(ens, Util::StatTypeMean);
       int total = 0;
       int valid = 0;
       for(int j = 0; j < ens.size(); j++) {
@@ -433,14 +428,20 @@ Parameters CalibratorZaga::train(const std::vector<ObsEns>& iData) const {
             valid++;
          }
       }
-      if(valid > 0)
-         frac[i] = (float) total / valid;
-      else
-         abort();
-      assert(frac[i] >= 0 && frac[i] <= 1);
+      // Pairs without an observation or without any valid members cannot be used
+      if(!Util::isValid(iData[i].first) || valid == 0)
+         continue;
+      obs.push_back(iData[i].first);
+      mean.push_back(Util::calculateStat(ens, Util::StatTypeMean));
+      frac.push_back((float) total / valid);
+      assert(frac.back() >= 0 && frac.back() <= 1);
    }
 
    int N = mean.size();
+   if(N == 0) {
+      std::cout << "No data to train on...";
+      return Parameters();
+   }
    double* p = new double[1+3*N]; 
    p[0] = N;
    for(int n = 0; n < N; n++) {
-- 
2.43.0


From 9468ba515a7937e9134141e8727c4cdcfe3d18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:25 +0000
Subject: [PATCH 132/132] fix: gaussian training used missing observations as
 values

---
 src/client/Calibrator/Gaussian.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 585268e..c79b55e 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -215,18 +215,24 @@ Parameters CalibratorGaussian::train(const std::vector<ObsEns>& iData) const {
       return Parameters();
    }
    std::vector<float> obs, mean, spread;
-   obs.resize(iData.size(), Util::MV);
-   mean.resize(iData.size(), Util::MV);
-   spread.resize(iData.size(), Util::MV);
    // Compute predictors in model
    for(int i = 0; i < iData.size(); i++) {
-      obs[i] = iData[i].first;
       std::vector<float> ens = iData[i].second;
-      mean[i] = Util::calculateStat(ens, Util::StatTypeMean);
-      spread[i] = Util::calculateStat(ens, Util::StatTypeStd);
+      float currMean = Util::calculateStat(ens, Util::StatTypeMean);
+      float currSpread = Util::calculateStat(ens, Util::StatTypeStd);
+      // Pairs without an observation or without any valid members cannot be used
+      if(!Util::isValid(iData[i].first) || !Util::isValid(currMean) || !Util::isValid(currSpread))
+         continue;
+      obs.push_back(iData[i].first);
+      mean.push_back(currMean);
+      spread.push_back(currSpread);
    }
 
    int N = mean.size();
+   if(N == 0) {
+      std::cout << "No data to train on...";
+      return Parameters();
+   }
    double* p = new double[1+3*N]; 
    p[0] = N;
    for(int n = 0; n < N; n++) {
-- 
2.43.0


From 592a75d4f3be27893d070b985b0214567c4cee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:03 +0000
Subject: [PATCH 01/22] fix: ordered() treats nan as unordered in floating
 point arrays

The loops tested the negated comparison, so a nan next to any value passed
as ordered, unlike the object loop and the documented meaning of op.
---
 src/ordered/ordered_gufunc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..e0f9033 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
-- 
2.43.0


From 9dc67cb244e7dd25457f62e54d8268c69cec3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:03 +0000
Subject: [PATCH 02/22] fix: bincount ignores uint64 values >= 2**63

The cast to npy_intp made such values negative, so they passed the range
check and were used as an index outside the output array.
---
 src/bincount/bincount_gufunc.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..1fd6c9d 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -36,7 +36,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +44,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +53,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +82,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +130,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From c9a5f913707ddf0513f69753df05a77a8af33c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 03/22] fix: kbnsum reads the elements after an infinity with
 the input's stride

---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From 474c2189659398b9b06aab93590f301c0d1e9978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 04/22] fix: unwrap overflows int for jumps of 2**31 periods or
 more

---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..f8ceef9 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = static_cast<T>(std::trunc(delta/period + std::copysign(0.5, delta)));
     return x1 - q * period;
 }
 
-- 
2.43.0


From 6af006a9b548a35bef48e3f8b4aee4016993e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/22] fix: gmean and gmeanw return nan for negative infinity

---
 src/means/means_gufunc.c.src | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..26fa8ee 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -57,16 +57,16 @@
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += logx;
@@ -137,16 +137,16 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += w*logx;
-- 
2.43.0


From 6eb99b6bdddc965b9e12d98cb5744900240d6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/22] fix: pmean and pmeanw of order -1 return nan for
 negative values

---
 src/means/means_gufunc.c.src | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 26fa8ee..163df12 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -349,14 +349,6 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            char *args2[2] = {in0, out};
-            npy_intp dims2[2] = {1, dimensions[1]};
-            npy_intp steps2[3] = {in0_step, out_step, inner_step};
-            hmean_@typename@_loop(args2, dims2, steps2, NULL);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
@@ -385,6 +377,14 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            char *args2[2] = {in0, out};
+            npy_intp dims2[2] = {1, dimensions[1]};
+            npy_intp steps2[3] = {in0_step, out_step, inner_step};
+            hmean_@typename@_loop(args2, dims2, steps2, NULL);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
@@ -493,12 +493,6 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
-                                                        inner0_step, inner1_step);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
                                                      inner1 += inner1_step) {
@@ -528,6 +522,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
+                                                        inner0_step, inner1_step);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
-- 
2.43.0


From 89dce627e1af948d01c93d9dd5a600f468892556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 07/22] fix: pmean and pmeanw of tiny nonzero order handle zero
 and infinite elements

---
 src/means/means_gufunc.c.src | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 163df12..714e4c3 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -332,7 +332,7 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -471,7 +471,7 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
-- 
2.43.0


From 1b9248d44c35af2330f2c247a050714b1763e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 08/22] fix: linear_interp1d reads outside its arrays for nan
 or without knots

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..15aaac8 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,14 +89,14 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp (or if any of these values is nan).
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
@@ -133,9 +133,9 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp (or if any of these values is nan).
             *((@ctype@ *) pout) = NPY_NAN;
             continue;
         }
-- 
2.43.0


From b1db29a04fd52bef4ecb78e40fc210435a28cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 09/22] fix: sosfilter without sections leaves its output
 uninitialised

---
 src/sosfilter/sosfilter_gufunc.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..c3377be 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -42,21 +42,21 @@ static void sosfilter_ic_core(
             T xi = p_x[i];
             for (npy_intp k = 0; k < m; ++k) {
 
-                // y[i] = sos[k, 0]*xi + zf[k, 0];
+                // yi = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi + get2d(p_zf, zf_strides, k, 0);
-                p_y[i] = yi;
 
-                // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
+                // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*yi;
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
                          - (get2d(p_sos, sos_strides, k, 4)*yi);
                 set2d(p_zf, zf_strides, k, 0, tmp1);
 
-                // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*y[i];
+                // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*yi;
                 T tmp2 = get2d(p_sos, sos_strides, k, 2) * xi - (get2d(p_sos, sos_strides, k, 5)*yi);
                 set2d(p_zf, zf_strides, k, 1, tmp2);
 
                 xi = yi;
             }
+            p_y[i] = xi;
         }
     }
     else {
@@ -64,21 +64,21 @@ static void sosfilter_ic_core(
             T xi = get(p_x, x_stride, i);
             for (npy_intp k = 0; k < m; ++k) {
 
-                // y[i] = sos[k, 0]*xi + zf[k, 0];
+                // yi = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi +get2d(p_zf, zf_strides, k, 0);
-                set(p_y, y_stride, i, yi);
 
-                // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
+                // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*yi;
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
                          - (get2d(p_sos, sos_strides, k, 4)*yi);
                 set2d(p_zf, zf_strides, k, 0, tmp1);
 
-                // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*y[i];
+                // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*yi;
                 T tmp2 = get2d(p_sos, sos_strides, k, 2) * xi - (get2d(p_sos, sos_strides, k, 5)*yi);
                 set2d(p_zf, zf_strides, k, 1, tmp2);
 
                 xi = yi;
             }
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -112,18 +112,18 @@ static void sosfilter_ic_contig_core(
         T xi = p_x[i];
         for (npy_intp k = 0; k < m; ++k) {
 
-            // y[i] = sos[k, 0]*xi + zf[k, 0];
+            // yi = sos[k, 0]*xi + zf[k, 0];
             T yi = (*(p_sos + 6*k))*xi + (*(p_zf + 2*k));
-            p_y[i] = yi;
 
-            // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
+            // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*yi;
             *(p_zf + 2*k) = (*(p_zf + 2*k + 1)) + (*(p_sos + 6*k + 1))*xi - (*(p_sos + 6*k + 4))*yi;
 
-            // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*y[i];
+            // zf[k, 1] = sos[k, 2]*xi - sos[k, 5]*yi;
             *(p_zf + 2*k + 1) = (*(p_sos + 6*k + 2))*xi - (*(p_sos + 6*k + 5))*yi;
 
             xi = yi;
         }
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From bcd869b7d3171e50c5a9e43a7c7143d2793cdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 10/22] fix: hypot3 returns 0 for a nan argument after a zero

---
 src/hypot3/hypot3.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypot3/hypot3.h b/src/hypot3/hypot3.h
index 5aab615..f3c8e8d 100644
--- a/src/hypot3/hypot3.h
+++ b/src/hypot3/hypot3.h
@@ -21,6 +21,11 @@ T hypot3(T x, T y, T z)
     if (std::isinf(x) || std::isinf(y) || std::isinf(z)) {
         return std::numeric_limits<T>::infinity();
     }
+    // Likewise, the comparisons in libstdc++'s std::hypot(x, y, z) can drop
+    // a nan: std::hypot(0.0, nan, 0.0) returns 0.
+    if (std::isnan(x) || std::isnan(y) || std::isnan(z)) {
+        return std::numeric_limits<T>::quiet_NaN();
+    }
     return std::hypot(x, y, z);
 }
 
-- 
2.43.0


From d906c1acb77ba57b5267995d36d6e24c4f28a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 11/22] fix: convert_to_base dies with SIGFPE for base 0 and
 for base -1

---
 src/convert_to_base/convert_to_base_gufunc.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..9798664 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -20,6 +20,14 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    if (base == 0 || (base < 0 && base + 1 == 0)) {
+        // Division by 0, and of the most negative integer by -1, is a fault.
+        // The remainders for base -1 are all 0; use 0 for base 0 as well.
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From d82c08a844a20e62607cbc51f880e64e92c07be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 12/22] fix: percentileofscore leaves its output uninitialised
 for an unknown kind

---
 src/percentileofscore/percentileofscore_gufunc.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..2688572 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -64,7 +64,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +81,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Not one of the values of `percentileofscore_kind`.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From 3c14619416d5569c348a51befb069464d6c2382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 13/22] fix: bincount: compute the default m without overflow
 of x's data type

---
 ufunclab/_wrapped.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..7b7395c 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,9 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        # Convert to a Python integer before adding 1, because the result
+        # might overflow the data type of x.
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From 91c88566826031ba9de0e6b3affcbbf81865d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 14/22] fix: bincount: don't accumulate in the uninitialized
 temporary array used for casting

---
 ufunclab/_wrapped.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 7b7395c..ddb2355 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,24 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _accumulate(func, args, out, axes):
+    """
+    Call the gufunc `func`, which accumulates its results in `out`.
+
+    If `out` can't be passed directly to the inner loop of `func`, NumPy
+    gives the inner loop a temporary array that is *not initialized*, so
+    in that case the results are computed in an array of zeros and then
+    added to `out`.
+    """
+    dtypes = tuple(arg.dtype for arg in args) + (None,)
+    loop_dtype = func.resolve_dtypes(dtypes)[-1]
+    if out.dtype == loop_dtype and out.flags.aligned:
+        return func(*args, out=out, axes=axes)
+    tmp = np.zeros(out.shape, dtype=loop_dtype)
+    func(*args, out=tmp, axes=axes)
+    return np.add(out, tmp.astype(out.dtype, casting='same_kind'), out=out)
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -187,7 +205,8 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        return _accumulate(_bincountw, (x, weights), out,
+                           axes=[axis, axis, axis])
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -201,7 +220,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        return _accumulate(_bincount, (x,), out, axes=[axis, axis])
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From 13aa48e513bbc36fbfc93a9bed7d90d0328fbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 15/22] fix: convert_to_base: use uint64 for the digits when k
 and base are uint64

---
 ufunclab/_wrapped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index ddb2355..150bacd 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -291,7 +291,11 @@ def convert_to_base(k, base, ndigits, *, out=None, axis=-1):
             raise ValueError(f'out.shape must be {out_shape}; '
                              f'got {out.shape}.')
     else:
-        out = np.empty(out_shape, dtype=int)
+        # A digit is bounded by both k and base, so it does not fit in the
+        # default integer only if both have 64 bit unsigned types.
+        wide = all(arg.dtype.kind == 'u' and arg.dtype.itemsize == 8
+                   for arg in (k, base))
+        out = np.empty(out_shape, dtype=np.uint64 if wide else int)
     return _convert_to_base(k, base, out=out, axis=axis)
 
 
-- 
2.43.0


From cb8de4598311a9a19bd4e3e2b316a6bf39c08c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 16/22] fix: one_hot: accept unsigned integers

---
 ufunclab/_wrapped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 150bacd..c006ac1 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -397,7 +397,11 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    # The gufunc has a single loop, for int64.  (A value of k that doesn't fit
+    # in an int64 becomes negative, so it is still not in range(n).)  The
+    # output is either 0 or 1, so any integer type can hold it.
+    k = k.astype(np.int64, copy=False)
+    return _one_hot(k, out=out, axis=axis, casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From dc91e14362939ae3adefea989253cfbc3177ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:58 +0000
Subject: [PATCH 17/22] fix: gendot: do not reduce with an element-wise loop
 whose output type is not its input type

The result of the loop is an input of its next call.  With loops such as
'dd->?' of np.logical_and, each call read items of the input type from a
buffer with items of the (smaller) output type, and the products
overflowed the temporary buffer.
---
 ufunclab/_gendot_wrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..18a6894 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -168,6 +168,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
             sum_intype = sum_type.replace(' ', '').split('->')[0]
+            if sumfunc.nin == 2 and sum_type[-1] != prod_outtype:
+                # The result of an element-wise sumfunc is an input of
+                # its next call, so the types must be the same.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
-- 
2.43.0


From 40a12eb438cbafc9573f1e6425af09572bf7b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:17 +0000
Subject: [PATCH 18/22] fix: gendot: size the temporary buffer by the type of
 the products

The buffer and its stride used the item size of the output, so a sumfunc
whose output is smaller than its input (e.g. 'D->d' of rms) made the
products overflow the buffer.
---
 src/gendot/gendotmodule.c | 13 +++++++++----
 ufunclab/_gendot_wrap.py  |  5 ++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..03498c8 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -15,6 +15,7 @@
 typedef struct gendot_data_t {
     PyUFuncGenericFunction *prodfunc_loop;
     void *prodfunc_loop_data;
+    npy_intp prodfunc_loop_itemsize;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
     npy_intp sumfunc_loop_itemsize;
@@ -27,6 +28,7 @@ typedef struct gendot_data_t {
 
 #define PRODFUNC_LOOP(p)            (((gendot_data_t *)(p))->prodfunc_loop)
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
@@ -99,14 +101,16 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
-    size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
+    // Size of the items that prodfunc puts in tmp.
+    size_t itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
             for (int j = 0; j < nloops; ++j, pout += steps[2]) {
-                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
+                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data),
+                       SUMFUNC_LOOP_ITEMSIZE(data));
             }
             return;
         }
@@ -315,11 +319,12 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
-        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
+        gendot_data[i].prodfunc_loop_itemsize = gendot_itemsizes[2*i];
+        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[2*i + 1];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
                sumfunc_identity_data + 32*i,  // FIXME: hard-coded constant 32 :(
-               gendot_itemsizes[i]);
+               gendot_itemsizes[2*i + 1]);
 
         gendot_data_ptrs[i] = &gendot_data[i];
     }
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 18a6894..bfec6c4 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -177,7 +177,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
                 dot_types.append((prod_type, sum_type))
     typechars = [prod_type[:2] + sum_type[-1]
                  for prod_type, sum_type in dot_types]
-    itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
+    # Each row holds the item size of the product and of the output.
+    itemsizes = np.array([[np.dtype(prod_type[-1]).itemsize,
+                           np.dtype(sum_type[-1]).itemsize]
+                          for prod_type, sum_type in dot_types],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
-- 
2.43.0


From 3c5a71d18b5768960801db61ae1c68cc2dce4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:44 +0000
Subject: [PATCH 19/22] fix: gendot: convert the identity to the output type
 with wraparound

The identity of np.bitwise_and is -1, which NumPy 2 refuses to convert
to an unsigned integer, so gendot(..., np.bitwise_and) raised
OverflowError.
---
 ufunclab/_gendot_wrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index bfec6c4..29a3539 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -195,7 +195,8 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # The cast wraps, e.g. the identity -1 of np.bitwise_and.
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From 7e6a3fbc3d1b09a4afcea3a490de39c5fcc5d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 20/22] fix: object loops of the generated gufuncs stop when an
 exception is set

The loop over the outer dimensions went on to call the core function with
an exception set, and the caller got a SystemError instead of the original
exception.
---
 tools/cxxgen/gufuncgen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..5ff0f3f 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,13 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if 'PyObject *' in var_ctypes:
+        # Stop when a Python operation failed; the exception must not be
+        # replaced by what the rest of the loop does.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 02f4b274d7fde9bf540d5c1f939b868f5ef57e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 21/22] fix: object loops release the objects that the output
 array held

With out=, the references that the cells of the output array held were
overwritten and never released.  `first` stored NULL in the output cell
when a comparison failed; now the cell keeps what it held.
---
 src/cross/cross_gufunc.h               | 8 ++++----
 src/first/first_gufunc.h               | 6 ++++--
 src/minmax/minmax_gufunc.h             | 8 ++++----
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 +-
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..ef89871 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,9 @@ cross3_core_calc_object(
         return;
     }
 
-    set(p_out, out_stride, 0, out0);
-    set(p_out, out_stride, 1, out1);
-    set(p_out, out_stride, 2, out2);
+    Py_XSETREF(*p_out, out0);
+    Py_XSETREF(*(PyObject **)((char *) p_out + out_stride), out1);
+    Py_XSETREF(*(PyObject **)((char *) p_out + 2*out_stride), out2);
 }
 
 //
@@ -156,7 +156,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(*p_out, out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..82debde 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -171,8 +171,10 @@ first_core_calc_object(
             }
         }
     }
-    Py_XINCREF(result);
-    *p_out = result;
+    if (result != NULL) {
+        Py_INCREF(result);
+        Py_XSETREF(*p_out, result);
+    }
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..258f44a 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -68,8 +68,8 @@ static void minmax_object_core(
     }
     Py_INCREF(xmin);
     Py_INCREF(xmax);
-    *p_out = xmin;
-    set(p_out, out_stride, 1, xmax);
+    Py_XSETREF(*p_out, xmin);
+    Py_XSETREF(*(PyObject **)((char *) p_out + out_stride), xmax);
 }
 
 
@@ -283,7 +283,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +334,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..753c6bd 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -227,7 +227,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*(PyObject **) out, diff);
     }
 }
 
-- 
2.43.0


From 029d07a03bef72f5ecc6bc1ef8b0c4f260f1f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:48 +0000
Subject: [PATCH 22/22] fix: ordered() of objects compares each element with
 its predecessor

The object loop compared every element with the first one.
---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index e0f9033..15f6764 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From 2ac469e8fc21bfa261e1053d88126ff90ceab9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 01/55] fix: larf: check the length of x with the intended
 precedence

The size check parsed as (size(x) == (side == Left)) ? m : n, so it accepted
vectors of any length and rejected valid empty problems.
---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From a6a50d8c81bb67ee9e6963f2b2375b5fdc4bf61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 02/55] fix: legacy gemv: do not conjugate the read-only vector
 x in place

---
 include/tlapack/legacy_api/blas/gemv.hpp | 41 ++++++------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/gemv.hpp b/include/tlapack/legacy_api/blas/gemv.hpp
index 1bf5ec8..6084f35 100644
--- a/include/tlapack/legacy_api/blas/gemv.hpp
+++ b/include/tlapack/legacy_api/blas/gemv.hpp
@@ -117,30 +117,21 @@ namespace legacy {
             return;
 
         // Transpose if Row Major
-        bool doConj = false;
         if (layout == Layout::RowMajor) {
-            // A => A^T; A^T => A; A^H => A & doConj
+            // A => A^T; A^T => A; A^H => conj(A)
             std::swap(m, n);
             if (trans == Op::NoTrans)
                 trans = Op::Trans;
-            else {
-                if (trans == Op::ConjTrans) doConj = true;
+            else if (trans == Op::ConjTrans)
+                trans = Op::Conj;
+            else
                 trans = Op::NoTrans;
-            }
         }
 
         // Initialize indexes
-        const idx_t lenx = ((trans == Op::NoTrans) ? n : m);
-        const idx_t leny = ((trans == Op::NoTrans) ? m : n);
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
-        }
+        const bool noTrans = (trans == Op::NoTrans || trans == Op::Conj);
+        const idx_t lenx = (noTrans ? n : m);
+        const idx_t leny = (noTrans ? m : n);
 
         // Matrix views
         const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
@@ -150,25 +141,13 @@ namespace legacy {
                 y_, TY, leny, y, incy,
                 if (beta == scalar_t(0)) for (idx_t i = 0; i < leny; ++i)
                     y_[i] = TY(0);
-                else for (idx_t i = 0; i < leny; ++i) y_[i] *=
-                (doConj) ? conj(beta) : beta);
+                else for (idx_t i = 0; i < leny; ++i) y_[i] *= beta);
         }
         else {
             tlapack_expr_with_2vectors(
                 x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
-                if (beta == scalar_t(0))
-                    gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_, y_);
-                else gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_,
-                          (doConj) ? conj(beta) : beta, y_));
-        }
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
     }
 
-- 
2.43.0


From 6790ce4336912559dfdb25ceae2761b1c50cec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 03/55] fix: gemv: set y when the inner dimension is zero

---
 include/tlapack/blas/gemv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/gemv.hpp b/include/tlapack/blas/gemv.hpp
index 032a25e..036def6 100644
--- a/include/tlapack/blas/gemv.hpp
+++ b/include/tlapack/blas/gemv.hpp
@@ -79,7 +79,7 @@ void gemv(Op trans,
     tlapack_check_false((idx_t)size(y) != m);
 
     // quick return
-    if (m == 0 || n == 0) return;
+    if (m == 0) return;
 
     // form y := beta*y
     for (idx_t i = 0; i < m; ++i)
-- 
2.43.0


From d5a6d396f510f64e76f8ca627dcfe8b6ddca8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 04/55] fix: larnv: depend on the given seed only, not on
 std::random_device

---
 include/tlapack/lapack/larnv.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larnv.hpp b/include/tlapack/lapack/larnv.hpp
index 45689f9..af36b74 100644
--- a/include/tlapack/lapack/larnv.hpp
+++ b/include/tlapack/lapack/larnv.hpp
@@ -52,8 +52,7 @@ void larnv(iseed_t& iseed, vector_t& x)
     const double twopi(8 * std::atan(1.0));
 
     // Initialize the Mersenne Twister generator
-    std::random_device device;
-    std::mt19937 generator(device());
+    std::mt19937 generator;
     generator.seed(iseed);
 
     if constexpr (idist == 1) {
-- 
2.43.0


From ee00591994bd6fb93508a9dcd61d8ff918cf6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 05/55] fix: rotmg: terminate when a scaling factor is zero or
 infinite

---
 include/tlapack/blas/rotmg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..7abe2fe 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -154,8 +154,10 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                 a = b * u;
             }
 
+            // A scaling factor that is zero or infinite cannot be rescaled
             if (d1 != zero) {
-                while ((d1 <= rgamsq) || (d1 >= gamsq)) {
+                while (d1 != zero && !isinf(d1) &&
+                       ((d1 <= rgamsq) || (d1 >= gamsq))) {
                     if (flag == 0) {
                         h[0] = one;
                         h[3] = one;
@@ -182,7 +184,8 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             }
 
             if (d2 != zero) {
-                while ((abs(d2) <= rgamsq) || (abs(d2) >= gamsq)) {
+                while (d2 != zero && !isinf(d2) &&
+                       ((abs(d2) <= rgamsq) || (abs(d2) >= gamsq))) {
                     if (flag == 0) {
                         h[0] = one;
                         h[3] = one;
-- 
2.43.0


From eb307c6e529b9f7c875d89e2e15f39cabfc44aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 06/55] fix: getri_worksize: call getri_uxli_worksize with its
 actual signature

---
 include/tlapack/lapack/getri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
-- 
2.43.0


From 55e06aa87738eded78aad606969e7ee37afbeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 07/55] fix: ul_mult, trsm_tri, trmm_out, mult_hehe: return at
 once on empty matrices

---
 include/tlapack/lapack/mult_hehe.hpp | 3 +++
 include/tlapack/lapack/trmm_out.hpp  | 3 +++
 include/tlapack/lapack/trsm_tri.hpp  | 3 +++
 include/tlapack/lapack/ul_mult.hpp   | 2 +-
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..710e3b2 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,6 +70,9 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
+    // quick return
+    if (n == 0) return;
+
     if (n <= 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..acea4b0 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..4315779 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From 109de59517ce397451bd4b8ae50aff3824b4bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 08/55] fix: hetrf_blocked: set the pivot index of a trailing
 1-by-1 block

---
 include/tlapack/lapack/hetrf_blocked.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..f91cdfe 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,8 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        // A trailing 1-by-1 pivot is left to us
+        if (j > 0) ipiv[0] = 0;
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +112,8 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        // A trailing 1-by-1 pivot is left to us
+        if (j < (int)n) ipiv[n - 1] = n - 1;
     }
     return info;
 }
-- 
2.43.0


From 8190479e04ef3377b6d2733b0ef1acf7ec20b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 09/55] fix: pbtrf_with_workspace: keep the diagonal blocks
 inside the band

---
 .../tlapack/lapack/pbtrf_with_workspace.hpp   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..a6fc2f4 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -67,7 +67,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // The blocks on the diagonal must fit in the band
+    const idx_t nb = (kd > 0) ? min<idx_t>(opts.nb, kd) : 1;
 
     idx_t n = nrows(A);
 
@@ -87,9 +88,13 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd == 0)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 = (kd > 0 && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A01 = slice(A, range(i, ib + i),
@@ -160,9 +165,13 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd == 0)      ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 = (kd > 0 && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A10 =
-- 
2.43.0


From 95601487aa08eebe912aec7d7529aaf81c6f753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 10/55] fix: gehrd: do not slice tau beyond its documented
 length

---
 include/tlapack/lapack/gehrd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..458f78b 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -144,7 +144,7 @@ int gehrd_work(size_type<matrix_t> ilo,
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, i + nb2});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
-- 
2.43.0


From 17e55484852b3ea7452e36ec901966a197c3b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 11/55] fix: hessenberg_rq: return at once on an empty matrix

---
 include/tlapack/lapack/hessenberg_rq.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hessenberg_rq.hpp b/include/tlapack/lapack/hessenberg_rq.hpp
index b326709..d1ef75e 100644
--- a/include/tlapack/lapack/hessenberg_rq.hpp
+++ b/include/tlapack/lapack/hessenberg_rq.hpp
@@ -54,10 +54,9 @@ inline void hessenberg_rq(T_t& T, CL_t& cl, SL_t& sl, CR_t& cr, SR_t& sr)
 
     // constants
     const idx_t n = ncols(T);
-    const idx_t k = n - 1;
 
     // quick return
-    if (k < 1) return;
+    if (n <= 1) return;
 
     // Apply rotations to last column
     for (idx_t j = n - 2; j != (idx_t)-1; --j) {
-- 
2.43.0


From 3bfd2f596e4357e779a04c43f29077797c53e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 12/55] fix: move_bulge: do not read a fourth column that H
 does not have

---
 include/tlapack/lapack/move_bulge.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..0539de8 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -43,11 +43,11 @@ void move_bulge(matrix_t& H,
     using real_t = real_type<T>;
 
     using idx_t = size_type<matrix_t>;
-    using range = pair<idx_t, idx_t>;
     const real_t zero(0);
     const real_t eps = ulp<real_t>();
 
     CreateStatic<vector_t, 3> new_3_vector;
+    CreateStatic<matrix_t, 3, 3> new_3by3_matrix;
 
     // Perform delayed update of row below the bulge
     // Assumes the first two elements of the row are zero
@@ -77,7 +77,15 @@ void move_bulge(matrix_t& H,
         // 2-small-subdiagonals trick
         T vt_[3];
         auto vt = new_3_vector(vt_);
-        auto H2 = slice(H, range{1, 4}, range{1, 4});
+        // H has only 3 columns. The third column of H2 has no influence,
+        // because H2(2, 0) is zero.
+        T H2_[9];
+        auto H2 = new_3by3_matrix(H2_);
+        for (idx_t i = 0; i < 3; ++i) {
+            H2(i, 0) = H(i + 1, 1);
+            H2(i, 1) = H(i + 1, 2);
+            H2(i, 2) = zero;
+        }
         lahqr_shiftcolumn(H2, vt, s1, s2);
         larfg(FORWARD, COLUMNWISE_STORAGE, vt, tau);
         vt[0] = tau;
-- 
2.43.0


From 93bc51ffa9876866ddb1785e13803d5247ba37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 13/55] fix: multishift_qr: take extra shifts from the active
 block, inside w and A

---
 include/tlapack/lapack/multishift_qr.hpp      | 38 ++++++++++++-------
 .../tlapack/lapack/multishift_qr_sweep.hpp    |  3 ++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..d81ebbf 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -257,32 +257,41 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+        // An even number of shifts that fits the active block and the space
+        // below the subdiagonal
+        idx_t ns = min(min(nsr, max<idx_t>(2, (n - 3) / 6)),
+                       max<idx_t>(2, istop - istart - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts + 1; i < istop; i = i + 2) {
                 real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
+                if (i > istart + 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
-                lahqr_eig22(aa, bb, cc, dd, w[i], w[i + 1]);
+                lahqr_eig22(aa, bb, cc, dd, w[i - 1], w[i]);
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
-
-                ns = nsr - ierr;
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use multi/double shift qr on
+                // a copy of the trailing active block to get more
+                auto A_tail =
+                    slice(A, range{istop - ns, istop}, range{istop - ns, istop});
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                for (idx_t j = 0; j < ns; ++j)
+                    for (idx_t i = 0; i < ns; ++i)
+                        temp(i, j) = (i <= j + 1) ? A_tail(i, j) : TA(0);
+                auto shifts = slice(w, range{istop - ns, istop});
+                auto Z_slice = slice(Z, range{0, ns}, range{0, ns});
+                int ierr = lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                ns = ns - ierr;
 
                 if (ns < 2) {
                     // In case of a rare QR failure, use eigenvalues
@@ -331,6 +340,7 @@ int multishift_qr_work(bool want_t,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
+            ns = min(ns, istop - i_shifts);
             if (ns % 2 == 1) ns = ns - 1;
             i_shifts = istop - ns;
         }
diff --git a/include/tlapack/lapack/multishift_qr_sweep.hpp b/include/tlapack/lapack/multishift_qr_sweep.hpp
index 873dd22..b7a3f2c 100644
--- a/include/tlapack/lapack/multishift_qr_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qr_sweep.hpp
@@ -113,6 +113,9 @@ void multishift_QR_sweep_work(bool want_t,
     if (n_shifts % 2 == 1) n_shifts = n_shifts - 1;
     idx_t n_bulges = n_shifts / 2;
 
+    // quick return if there are no shifts to chase
+    if (n_bulges == 0) return;
+
     const idx_t n_block_desired = std::min<idx_t>(2 * n_shifts, n_block_max);
 
     // Define workspace matrices
-- 
2.43.0


From 398085b2e1710e995fe76cd4d5b3ef501cf6e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 14/55] fix: schur_move: stop when the target is passed

---
 include/tlapack/lapack/schur_move.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/schur_move.hpp b/include/tlapack/lapack/schur_move.hpp
index e9ae364..76aad61 100644
--- a/include/tlapack/lapack/schur_move.hpp
+++ b/include/tlapack/lapack/schur_move.hpp
@@ -87,7 +87,7 @@ int schur_move(bool want_q,
         if (nbf == 2 and nbl == 1) ilst = ilst - 1;
         if (nbf == 1 and nbl == 2) ilst = ilst + 1;
 
-        while (here != ilst) {
+        while (here < ilst) {
             // Size of the next eigenvalue block
             idx_t nbnext = 1;
             if (is_real<T>)
@@ -104,7 +104,7 @@ int schur_move(bool want_q,
         }
     }
     else {
-        while (here != ilst) {
+        while (here > ilst) {
             // Size of the next eigenvalue block
             idx_t nbnext = 1;
             if (is_real<T>)
-- 
2.43.0


From e398517c7a6a6fb427960270ca5cbf0bd3858387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 15/55] fix: lae2, laev2: do not lose a NaN on the diagonal

---
 include/tlapack/lapack/lae2.hpp  | 7 ++++---
 include/tlapack/lapack/laev2.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/lae2.hpp b/include/tlapack/lapack/lae2.hpp
index c5b4d00..75efb6a 100644
--- a/include/tlapack/lapack/lae2.hpp
+++ b/include/tlapack/lapack/lae2.hpp
@@ -97,9 +97,10 @@ void lae2(T a, T b, T c, T& s1, T& s2)
         s2 = (acmx / s1) * acmn - (b / s1) * b;
     }
     else {
-        // Includes case s1 = s2 = 0
-        s1 = half * rt;
-        s2 = -half * rt;
+        // Includes case s1 = s2 = 0. Here sm is either zero or NaN, and a NaN
+        // must not be lost.
+        s1 = sm + half * rt;
+        s2 = sm - half * rt;
     }
 }
 }  // namespace tlapack
diff --git a/include/tlapack/lapack/laev2.hpp b/include/tlapack/lapack/laev2.hpp
index c20c795..4e2265d 100644
--- a/include/tlapack/lapack/laev2.hpp
+++ b/include/tlapack/lapack/laev2.hpp
@@ -110,9 +110,10 @@ void laev2(T a, T b, T c, T& s1, T& s2, T& cs, T& sn)
         s2 = (acmx / s1) * acmn - (b / s1) * b;
     }
     else {
-        // Includes case s1 = s2 = 0
-        s1 = half * rt;
-        s2 = -half * rt;
+        // Includes case s1 = s2 = 0. Here sm is either zero or NaN, and a NaN
+        // must not be lost.
+        s1 = sm + half * rt;
+        s2 = sm - half * rt;
         sign1 = 1;
     }
 
-- 
2.43.0


From c3b6dfcd54bab81356040f19e965995b33b478b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 16/55] fix: trevc, trevc3: check the sizes before
 standardizing select

---
 include/tlapack/lapack/trevc.hpp  | 22 +++++++++++++++-------
 include/tlapack/lapack/trevc3.hpp | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/tlapack/lapack/trevc.hpp b/include/tlapack/lapack/trevc.hpp
index 58cfd8e..4f0ed98 100644
--- a/include/tlapack/lapack/trevc.hpp
+++ b/include/tlapack/lapack/trevc.hpp
@@ -146,8 +146,6 @@ int trevc(const side_t side,
     if (howmny == HowMny::Select) {
         // Set m to the number of columns required to store the selected
         // eigenvectors.
-        // If necessary, the array select is standardized for complex
-        // conjugate pairs so that select[j] is true and select[j+1] is false.
         idx_t j = 0;
         while (j < n) {
             bool pair = false;
@@ -163,11 +161,7 @@ int trevc(const side_t side,
                 j++;
             }
             else {
-                if (select[j] || select[j + 1]) {
-                    select[j] = true;
-                    select[j + 1] = false;
-                    m += 2;
-                }
+                if (select[j] || select[j + 1]) m += 2;
                 j += 2;
             }
         }
@@ -179,6 +173,20 @@ int trevc(const side_t side,
     // Make sure that the matrices Vl and Vr have enough space
     tlapack_check(mm >= m);
 
+    if (howmny == HowMny::Select) {
+        // If necessary, the array select is standardized for complex
+        // conjugate pairs so that select[j] is true and select[j+1] is false.
+        for (idx_t j = 0; j + 1 < n; ++j) {
+            if (T(j + 1, j) != TT(0)) {
+                if (select[j] || select[j + 1]) {
+                    select[j] = true;
+                    select[j + 1] = false;
+                }
+                ++j;
+            }
+        }
+    }
+
     auto [v1, work2] = reshape(work, n);
     auto [v2, work3] = reshape(work2, n);
     auto [v3, work4] = reshape(work3, n);
diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..2123282 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -209,8 +209,6 @@ int trevc3_work(const side_t side,
     if (howmny == HowMny::Select) {
         // Set m to the number of columns required to store the selected
         // eigenvectors.
-        // If necessary, the array select is standardized for complex
-        // conjugate pairs so that select[j] is true and select[j+1] is false.
         idx_t j = 0;
         while (j < n) {
             bool pair = false;
@@ -226,11 +224,7 @@ int trevc3_work(const side_t side,
                 j++;
             }
             else {
-                if (select[j] || select[j + 1]) {
-                    select[j] = true;
-                    select[j + 1] = true;
-                    m += 2;
-                }
+                if (select[j] || select[j + 1]) m += 2;
                 j += 2;
             }
         }
@@ -242,6 +236,20 @@ int trevc3_work(const side_t side,
     // Make sure that the matrices Vl and Vr have enough space
     tlapack_check(mm >= m);
 
+    if (howmny == HowMny::Select) {
+        // If necessary, the array select is standardized for complex
+        // conjugate pairs so that select[j] is true and select[j+1] is true.
+        for (idx_t j = 0; j + 1 < n; ++j) {
+            if (T(j + 1, j) != TT(0)) {
+                if (select[j] || select[j + 1]) {
+                    select[j] = true;
+                    select[j + 1] = true;
+                }
+                ++j;
+            }
+        }
+    }
+
     const idx_t nb = opts.block_size;  // Block size
 
     auto [X, work2] = reshape(work, n, opts.block_size + 1);
-- 
2.43.0


From f7149a957438af7682cd02b5a45c29fab5b2ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 17/55] fix: gghd3: leave Q and Z alone when they are not
 wanted

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..3ed664d 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(
+                    Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +258,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +293,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(
+                    Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 122917691374dae97b2a31ff7f7cd6ea4a63b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 18/55] fix: generalized_schur_swap: leave Q and Z alone when
 they are not wanted

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..e4d7363 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -948,7 +948,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -974,7 +974,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1029,9 +1029,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1041,20 +1043,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
@@ -1091,9 +1095,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1103,20 +1109,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From b4c6fa8ef2393ced0252b769693ea873305ca4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 19/55] fix: generalized_schur_move: stop when the target is
 passed

---
 include/tlapack/lapack/generalized_schur_move.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_move.hpp b/include/tlapack/lapack/generalized_schur_move.hpp
index fb708e3..f9227a4 100644
--- a/include/tlapack/lapack/generalized_schur_move.hpp
+++ b/include/tlapack/lapack/generalized_schur_move.hpp
@@ -96,7 +96,7 @@ int generalized_schur_move(bool want_q,
         if (nbf == 2 and nbl == 1) ilst = ilst - 1;
         if (nbf == 1 and nbl == 2) ilst = ilst + 1;
 
-        while (here != ilst) {
+        while (here < ilst) {
             // Size of the next eigenvalue block
             idx_t nbnext = 1;
             if (is_real<T>)
@@ -114,7 +114,7 @@ int generalized_schur_move(bool want_q,
         }
     }
     else {
-        while (here != ilst) {
+        while (here > ilst) {
             // Size of the next eigenvalue block
             idx_t nbnext = 1;
             if (is_real<T>)
-- 
2.43.0


From d61e230d9a154e66ac4da3f98b33eb85a8beb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 20/55] fix: multishift_qz: take exceptional shifts from the
 active block; stop when no shift is left

---
 include/tlapack/lapack/multishift_qz.hpp       | 15 +++++++++------
 include/tlapack/lapack/multishift_qz_sweep.hpp |  3 +++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..53640b1 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -481,17 +481,20 @@ int multishift_qz(bool want_s,
         if (k_defl % non_convergence_limit_shift == 0) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
+            // Take an even number of shifts that fits the active block.
+            ns = min(nsr, max<idx_t>(2, istop - istart - 1));
+            ns = ns - ns % 2;
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts + 1; i < istop; i = i + 2) {
                 real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
+                if (i > istart + 1) ss += abs1(A(i - 1, i - 2));
                 TA aa = dat1 * ss + A(i, i);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
-                lahqr_eig22(aa, bb, cc, dd, alpha[i], alpha[i + 1]);
+                lahqr_eig22(aa, bb, cc, dd, alpha[i - 1], alpha[i]);
+                beta[i - 1] = (TA)1;
                 beta[i] = (TA)1;
-                beta[i + 1] = (TA)1;
             }
         }
         else {
diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..2b08274 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -92,6 +92,9 @@ void multishift_QZ_sweep(bool want_t,
     if (n_shifts % 2 == 1) n_shifts = n_shifts - 1;
     idx_t n_bulges = n_shifts / 2;
 
+    // quick return if there are no shifts to chase
+    if (n_bulges == 0) return;
+
     const idx_t n_block_desired = std::min<idx_t>(2 * n_shifts, n_block_max);
 
     // Qc stores the left orthogonal transformations
-- 
2.43.0


From 1faa194cf794e20f15583638dd128240591d6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 21/55] fix: lahqr, lahqz: do not read the row below the active
 block

---
 include/tlapack/lapack/lahqr.hpp | 4 ++--
 include/tlapack/lapack/lahqz.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 5ba633b9160207ded7485f7d8aacd08f753df800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 22/55] fix: lahqz, multishift_qz: keep a positive real
 diagonal of B

---
 include/tlapack/lapack/lahqz.hpp         | 10 +++++-----
 include/tlapack/lapack/multishift_qz.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..551f6c5 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -314,8 +314,11 @@ int lahqz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -328,9 +331,6 @@ int lahqz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 53640b1..37bd86e 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -336,8 +336,11 @@ int multishift_qz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -350,9 +353,6 @@ int multishift_qz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
-- 
2.43.0


From 223eff59b0f209699339e494c391b28651aaab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 23/55] fix: trevc3: store the selected eigenvectors only;
 clear the product block

---
 include/tlapack/lapack/trevc3.hpp | 38 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 2123282..7e839a1 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemv.hpp"
+#include "tlapack/lapack/lacpy.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
 
@@ -274,15 +275,12 @@ int trevc3_work(const side_t side,
             idx_t i_end;
 
             if (howmny == HowMny::Select) {
-                // Find the first eigenvalue with index <= i with select ==
-                // true
-                for (idx_t jj = 0; jj < i + 1; jj++) {
-                    idx_t j = i - jj;
-                    if (select[j]) {
-                        i_end = j;
-                        break;
-                    }
+                // Skip the eigenvalues that are not selected
+                if (!select[i]) {
+                    ++ii;
+                    continue;
                 }
+                i_end = i;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_start = 0;
@@ -307,7 +305,8 @@ int trevc3_work(const side_t side,
 
             // Make sure we don't split 2x2 blocks
             if (i_start > 0) {
-                if (T(i_start, i_start - 1) != TT(0)) {
+                if (T(i_start, i_start - 1) != TT(0) &&
+                    (howmny != HowMny::Select || select[i_start - 1])) {
                     i_start--;
                 }
             }
@@ -326,7 +325,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block,
                      Qx);
 
                 auto Vr_block =
@@ -357,19 +356,17 @@ int trevc3_work(const side_t side,
             idx_t i_end;
 
             if (howmny == HowMny::Select) {
-                // Find the first eigenvalue with index <= i with select ==
-                // true
-                for (idx_t j = i; j < n; j++) {
-                    if (select[j]) {
-                        i_start = j;
-                        break;
-                    }
+                // Skip the eigenvalues that are not selected
+                if (!select[i]) {
+                    ++i;
+                    continue;
                 }
+                i_start = i;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_end = n - 1;
                 for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
+                    if (j >= i_start + nb) {
                         // Don't make the block too big
                         i_end = j - 1;
                         break;
@@ -388,7 +385,8 @@ int trevc3_work(const side_t side,
 
             // Make sure we don't split 2x2 blocks
             if (i_end + 1 < n) {
-                if (T(i_end + 1, i_end) != TT(0)) {
+                if (T(i_end + 1, i_end) != TT(0) &&
+                    (howmny != HowMny::Select || select[i_end + 1])) {
                     i_end++;
                 }
             }
@@ -407,7 +405,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block,
                      Qx);
 
                 auto Vl_block =
-- 
2.43.0


From b2afb1ea1dd2197f70aef74df2a6e768fb9f7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 24/55] fix: labrd: set the last scalar factor; do not read X
 and Y

---
 include/tlapack/lapack/labrd.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/tlapack/lapack/labrd.hpp b/include/tlapack/lapack/labrd.hpp
index 457eab4..4292657 100644
--- a/include/tlapack/lapack/labrd.hpp
+++ b/include/tlapack/lapack/labrd.hpp
@@ -107,17 +107,17 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // y11 = A(i:m,i+1:n)^H * v
                     auto A0 = slice(A, range{i, m}, range{i + 1, n});
-                    gemv(CONJ_TRANS, one, A0, v, zero, y11);
+                    gemv(CONJ_TRANS, one, A0, v, y11);
                     // t = A(i:m,0:i)^H * v
                     auto A1 = slice(A, range{i, m}, range{0, i});
                     auto t = slice(Y, range{0, i}, i);
-                    gemv(CONJ_TRANS, one, A1, v, zero, t);
+                    gemv(CONJ_TRANS, one, A1, v, t);
                     // y11 = y11 - Y(i+1:n,0:i) * t
                     auto Y2 = slice(Y, range{i + 1, n}, range{0, i});
                     gemv(NO_TRANS, -one, Y2, t, one, y11);
                     // t = X(i:m,0:i)^H * v
                     auto X2 = slice(X, range{i, m}, range{0, i});
-                    gemv(CONJ_TRANS, one, X2, v, zero, t);
+                    gemv(CONJ_TRANS, one, X2, v, t);
                     // y11 = y11 - A(0:i,i+1:n)^H * t
                     auto A2 = slice(A, range{0, i}, range{i + 1, n});
                     gemv(CONJ_TRANS, -one, A2, t, one, y11);
@@ -165,18 +165,18 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // x11 = A(i+1:m,i+1:n) * w
                     auto A4 = slice(A, range{i + 1, m}, range{i + 1, n});
-                    gemv(NO_TRANS, one, A4, w, zero, x11);
+                    gemv(NO_TRANS, one, A4, w, x11);
                     // t = Y(i+1:n,0:i+1)^H * w
                     auto Y4 = slice(Y, range{i + 1, n}, range{0, i + 1});
                     auto t2 = slice(X, range{0, i + 1}, i);
-                    gemv(CONJ_TRANS, one, Y4, w, zero, t2);
+                    gemv(CONJ_TRANS, one, Y4, w, t2);
                     // x11 = x11 - A(i+1:m,0:i+1) * t
                     auto A5 = slice(A, range{i + 1, m}, range{0, i + 1});
                     gemv(NO_TRANS, -one, A5, t2, one, x11);
                     // t = A(0:i,i+1:n) * w
                     auto A6 = slice(A, range{0, i}, range{i + 1, n});
                     auto t3 = slice(X, range{0, i}, i);
-                    gemv(NO_TRANS, one, A6, w, zero, t3);
+                    gemv(NO_TRANS, one, A6, w, t3);
                     // x11 = x11 - X(i+1:m,0:i) * t
                     auto X4 = slice(X, range{i + 1, m}, range{0, i});
                     gemv(NO_TRANS, -one, X4, t3, one, x11);
@@ -188,6 +188,9 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
                 A(i, i) = d;
                 A(i, i + 1) = e;
             }
+            else {
+                taup[i] = zero;
+            }
         }
     }
     else {
@@ -231,19 +234,19 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // x11 = A(i+1:m,i+1:n) * w
                     auto A4 = slice(A, range{i + 1, m}, range{i, n});
-                    gemv(NO_TRANS, one, A4, w, zero, x11);
+                    gemv(NO_TRANS, one, A4, w, x11);
                     if (i > 0) {
                         // t = Y(i:n,0:i)^H * w
                         auto Y4 = slice(Y, range{i, n}, range{0, i});
                         auto t2 = slice(X, range{0, i}, i);
-                        gemv(CONJ_TRANS, one, Y4, w, zero, t2);
+                        gemv(CONJ_TRANS, one, Y4, w, t2);
                         // x11 = x11 - A(i+1:m,0:i) * t
                         auto A5 = slice(A, range{i + 1, m}, range{0, i});
                         gemv(NO_TRANS, -one, A5, t2, one, x11);
                         // t = A(0:i,i:n) * w
                         auto A6 = slice(A, range{0, i}, range{i, n});
                         auto t3 = slice(X, range{0, i}, i);
-                        gemv(NO_TRANS, one, A6, w, zero, t3);
+                        gemv(NO_TRANS, one, A6, w, t3);
                         // x11 = x11 - X(i+1:m,0:i) * t
                         auto X4 = slice(X, range{i + 1, m}, range{0, i});
                         gemv(NO_TRANS, -one, X4, t3, one, x11);
@@ -283,18 +286,18 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
 
                     // y11 = A(i+1:m,i+1:n)^H * v
                     auto A0 = slice(A, range{i + 1, m}, range{i + 1, n});
-                    gemv(CONJ_TRANS, one, A0, v, zero, y11);
+                    gemv(CONJ_TRANS, one, A0, v, y11);
                     // t = A(i+1:m,0:i)^H * v
                     auto A1 = slice(A, range{i + 1, m}, range{0, i});
                     auto t = slice(Y, range{0, i}, i);
-                    gemv(CONJ_TRANS, one, A1, v, zero, t);
+                    gemv(CONJ_TRANS, one, A1, v, t);
                     // y11 = y11 - Y(i+1:n,0:i) * t
                     auto Y2 = slice(Y, range{i + 1, n}, range{0, i});
                     gemv(NO_TRANS, -one, Y2, t, one, y11);
                     // t = X(i+1:m,0:i+1)^H * v
                     auto t2 = slice(Y, range{0, i + 1}, i);
                     auto X3 = slice(X, range{i + 1, m}, range{0, i + 1});
-                    gemv(CONJ_TRANS, one, X3, v, zero, t2);
+                    gemv(CONJ_TRANS, one, X3, v, t2);
                     // y11 = y11 - A(0:i+1,i+1:n)^H * t
                     auto A3 = slice(A, range{0, i + 1}, range{i + 1, n});
                     gemv(CONJ_TRANS, -one, A3, t2, one, y11);
@@ -306,6 +309,7 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
                 A(i + 1, i) = e;
             }
             else {
+                tauq[i] = zero;
                 conjugate(w);
             }
         }
-- 
2.43.0


From 4376154d31eacf2718b21c43a16a60047eb12d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 25/55] fix: gebd2_worksize: accept a matrix without rows

---
 include/tlapack/lapack/gebd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..18a6c39 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
-- 
2.43.0


From 4a306f3e407968a5e04726e4e38609404551fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 26/55] fix: ungq, ungbr: accept an empty set of reflectors and
 an empty matrix

---
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 include/tlapack/lapack/ungq.hpp  |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..3f09edc 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..6e02d13 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -72,6 +72,9 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t k = size(tau);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // quick return
+    if (k == 0) return WorkInfo(0);
+
     WorkInfo workinfo;
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
@@ -176,7 +179,8 @@ int ungq_work(direction_t direction,
             laset(GENERAL, zero, zero, A0);
             laset(GENERAL, zero, one, A1);
 
-            for (idx_t j = ((k - 1) / nb) * nb; j != -nb; j -= nb) {
+            for (idx_t j = (k > 0) ? ((k - 1) / nb) * nb : -nb; j != -nb;
+                 j -= nb) {
                 const idx_t ib = min(nb, k - j);
                 const auto tauj = slice(tau, range{j, j + ib});
 
@@ -243,7 +247,8 @@ int ungq_work(direction_t direction,
             laset(GENERAL, zero, zero, A0);
             laset(GENERAL, zero, one, A1);
 
-            for (idx_t i = ((k - 1) / nb) * nb; i != -nb; i -= nb) {
+            for (idx_t i = (k > 0) ? ((k - 1) / nb) * nb : -nb; i != -nb;
+                 i -= nb) {
                 const idx_t ib = min(nb, k - i);
                 const auto taui = slice(tau, range{i, i + ib});
 
-- 
2.43.0


From 18506712c838c434a4b98e7fbd317b8d6c7562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 27/55] fix: singularvalues22, svd22: do not lose a NaN

---
 include/tlapack/lapack/singularvalues22.hpp | 7 +++++++
 include/tlapack/lapack/svd22.hpp            | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/include/tlapack/lapack/singularvalues22.hpp b/include/tlapack/lapack/singularvalues22.hpp
index 215cbe4..4311b89 100644
--- a/include/tlapack/lapack/singularvalues22.hpp
+++ b/include/tlapack/lapack/singularvalues22.hpp
@@ -46,6 +46,13 @@ void singularvalues22(const T& f, const T& g, const T& h, T& ssmin, T& ssmax)
     T fa = abs(f);
     T ga = abs(g);
     T ha = abs(h);
+
+    // min and max may lose a NaN
+    if (isnan(fa) || isnan(ga) || isnan(ha)) {
+        ssmin = ssmax = fa + ga + ha;
+        return;
+    }
+
     T fhmn = min(fa, ha);
     T fhmx = max(fa, ha);
     if (fhmn == zero) {
diff --git a/include/tlapack/lapack/svd22.hpp b/include/tlapack/lapack/svd22.hpp
index 2ac5348..4fd355c 100644
--- a/include/tlapack/lapack/svd22.hpp
+++ b/include/tlapack/lapack/svd22.hpp
@@ -74,6 +74,12 @@ void svd22(const T& f,
     T ht = h;
     T ha = abs(h);
 
+    // The comparisons below may lose a NaN
+    if (isnan(fa) || isnan(g) || isnan(ha)) {
+        ssmin = ssmax = csl = snl = csr = snr = fa + abs(g) + ha;
+        return;
+    }
+
     // PMAX points to the maximum absolute element of matrix
     // PMAX = 1 if F largest in absolute values
     // PMAX = 2 if G largest in absolute values
-- 
2.43.0


From 438484df1f5c242c82cc1a6fa10afbaa8f031fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 28/55] fix: larfg: do not take a NaN in x for zero

---
 include/tlapack/lapack/larfg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/larfg.hpp b/include/tlapack/lapack/larfg.hpp
index abb524c..4b72813 100644
--- a/include/tlapack/lapack/larfg.hpp
+++ b/include/tlapack/lapack/larfg.hpp
@@ -95,7 +95,7 @@ void larfg(storage_t storeMode,
     tau = zero;
     real_t xnorm = nrm2(x);
 
-    if (xnorm > zero || (imag(alpha) != zero)) {
+    if (xnorm != zero || (imag(alpha) != zero)) {
         // First estimate of beta
         real_t temp = (is_real<T>) ? lapy2(real(alpha), xnorm)
                                    : lapy3(real(alpha), imag(alpha), xnorm);
-- 
2.43.0


From 91259ab1c2d69d595e85d16a7ba82d980a65b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 29/55] fix: infnorm_*_colmajor can be used without a workspace
 and with complex matrices

---
 include/tlapack/lapack/infnorm_colmajor.hpp           |  5 ++++-
 include/tlapack/lapack/infnorm_hermitian_colmajor.hpp |  7 +++++--
 include/tlapack/lapack/infnorm_symmetric_colmajor.hpp |  7 +++++--
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp    | 11 +++++++----
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..4e08c5b 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -95,6 +95,9 @@ auto infnorm_colmajor(const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<real_type<matrix_t> > new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
@@ -104,7 +107,7 @@ auto infnorm_colmajor(const matrix_t& A)
 
     // Allocates workspace
     WorkInfo workinfo = infnorm_colmajor_worksize<T>(A);
-    std::vector<T> work_;
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_colmajor_work(A, work);
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..b17e63d 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -131,6 +131,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<real_type<matrix_t> > new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
@@ -142,7 +145,7 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
 
     // Allocates workspace
     WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_hermitian_colmajor_work(uplo, A, work);
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..6bcb251 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -131,6 +131,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<real_type<matrix_t> > new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
@@ -142,7 +145,7 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
 
     // Allocates workspace
     WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
     return infnorm_symmetric_colmajor_work(uplo, A, work);
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..f395d35 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
@@ -165,6 +165,9 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<real_type<matrix_t> > new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check_false(diag != Diag::NonUnit && diag != Diag::Unit);
@@ -177,11 +180,11 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
+    std::vector<real_t> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 7f155edeb099a7abc11beb36c46f6c9192e68cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 30/55] fix: lascl, hasnan and hasinf stay inside an upper
 Hessenberg matrix

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 include/tlapack/lapack/lascl.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 774e25272e9b4b82918eeafece2e92c6233f35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 31/55] fix: infnorm_triangular_colmajor does not write past
 its workspace for wide matrices

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index f395d35..a88398e 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = real_t(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
-- 
2.43.0


From 56916583cc07c61c7716befc8d1f941db204f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 32/55] fix: infnorm_triangular_colmajor uses the first column
 of a unit lower triangle

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index a88398e..d9133a5 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -115,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
-- 
2.43.0


From b6b78516dff0be1c21aca042f82ad1cd034ccf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 33/55] fix: laed4 goes on after laed6 has succeeded

---
 include/tlapack/lapack/laed4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..cf710c6 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -609,7 +609,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -795,7 +795,7 @@ int laed4(
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
                 info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
-- 
2.43.0


From 3a06b694e28920c8d9cd016b2c79399f0512de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 34/55] fix: rot_sequence3 applies the startup rotations to its
 own block of columns

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From b4dc3b08678bf56dcdc70edeb82a8d0195a19396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 35/55] fix: legacy herk, her2k, syrk and syr2k with alpha = 0
 stay in the triangle of C

---
 include/tlapack/legacy_api/blas/her2k.hpp | 18 +++++++++++-------
 include/tlapack/legacy_api/blas/herk.hpp  | 18 +++++++++++-------
 include/tlapack/legacy_api/blas/syr2k.hpp | 17 ++++++++++-------
 include/tlapack/legacy_api/blas/syrk.hpp  | 17 ++++++++++-------
 4 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..ab7b156 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -160,15 +160,19 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                // only the part of C selected by uplo is referenced
+                const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == real_t(0)) {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..32d81a9 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -138,15 +138,19 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == real_t(0)) {
-            if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                // only the part of C selected by uplo is referenced
+                const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == real_t(0)) {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..eddb126 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -160,15 +160,18 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                // only the part of C selected by uplo is referenced
+                const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == scalar_t(0)) {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..8d426e6 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -140,15 +140,18 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                // only the part of C selected by uplo is referenced
+                const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == scalar_t(0)) {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
-- 
2.43.0


From 952b1d32912473a14f0aa2f14fed3ee845fc1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 36/55] fix: trevc backsolve keeps the index of the largest
 element in an index

---
 include/tlapack/lapack/trevc_backsolve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..c0bba29 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -151,7 +151,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Safely update the right-hand side
             if (i > 1) {
-                real_t ivmax = iamax(slice(v1, range(0, i - 1)));
+                idx_t ivmax = iamax(slice(v1, range(0, i - 1)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i - 1];
@@ -213,7 +213,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
             if (i > 0) {
-                real_t ivmax = iamax(slice(v1, range(0, i)));
+                idx_t ivmax = iamax(slice(v1, range(0, i)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i];  // use precomputed column norms
@@ -314,7 +314,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
         // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
         if (i > 0) {
-            real_t ivmax = iamax(slice(v1, range(0, i)));
+            idx_t ivmax = iamax(slice(v1, range(0, i)));
             real_t vmax = abs1(v1[ivmax]);
 
             real_t tmax = colN[i];  // use precomputed column norms
-- 
2.43.0


From 0148e2a8252e96c16d92934d02f10ff22be95dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 37/55] fix: rotmg sets its flag without converting from the
 number type

---
 include/tlapack/blas/rotmg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 7abe2fe..88b7190 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -127,7 +127,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
             const T q1 = p1 * a;
 
             if (abs(q1) > abs(q2)) {
-                flag = zero;
+                flag = 0;
                 h[1] = -b / a;
                 h[2] = p2 / p1;
                 const T u = one - h[2] * h[1];
-- 
2.43.0


From 76063c8713044bde262e3fe03ab73f13731de168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 38/55] fix: tiled trsm does not scale the updates by alpha a
 second time

---
 include/tlapack/starpu/trsm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/starpu/trsm.hpp b/include/tlapack/starpu/trsm.hpp
index 64687c1..e584d90 100644
--- a/include/tlapack/starpu/trsm.hpp
+++ b/include/tlapack/starpu/trsm.hpp
@@ -64,7 +64,7 @@ void trsm(Side side,
                             B.tile(nx - ix - 1, iy));
                     }
                     auto C = B.get_tiles(0, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(0, nx - ix - 1, nx - ix - 1, 1),
                          B.get_const_tiles(nx - ix - 1, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -78,7 +78,7 @@ void trsm(Side side,
                             A_.tile(ix, ix), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(ix + 1, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(ix + 1, ix, nx - ix - 1, 1),
                          B.get_const_tiles(ix, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -99,7 +99,7 @@ void trsm(Side side,
                         //     ((ix == 0) ? alpha : one)), Aii, B_);
                     }
                     auto C = B.get_tiles(ix + 1, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(ix, ix + 1, 1, nx - ix - 1),
                          B.get_const_tiles(ix, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -114,7 +114,7 @@ void trsm(Side side,
                             B.tile(nx - ix - 1, iy));
                     }
                     auto C = B.get_tiles(0, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(nx - ix - 1, 0, 1, nx - ix - 1),
                          B.get_const_tiles(nx - ix - 1, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -132,7 +132,7 @@ void trsm(Side side,
                             A_.tile(iy, iy), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(0, iy + 1, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, iy, nx, 1),
                          A.get_const_tiles(iy, iy + 1, 1, ny - iy - 1),
                          ((iy == 0) ? alpha : one), C);
@@ -147,7 +147,7 @@ void trsm(Side side,
                             B.tile(ix, ny - iy - 1));
                     }
                     auto C = B.get_tiles(0, 0, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, ny - iy - 1, nx, 1),
                          A.get_const_tiles(ny - iy - 1, 0, 1, ny - iy - 1),
                          ((iy == 0) ? alpha : one), C);
@@ -164,7 +164,7 @@ void trsm(Side side,
                             B.tile(ix, ny - iy - 1));
                     }
                     auto C = B.get_tiles(0, 0, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, ny - iy - 1, nx, 1),
                          A.get_const_tiles(0, ny - iy - 1, ny - iy - 1, 1),
                          ((iy == 0) ? alpha : one), C);
@@ -178,7 +178,7 @@ void trsm(Side side,
                             A_.tile(iy, iy), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(0, iy + 1, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, iy, nx, 1),
                          A.get_const_tiles(iy + 1, iy, ny - iy - 1, 1),
                          ((iy == 0) ? alpha : one), C);
-- 
2.43.0


From 1ab7f4f3ac50e53ccf0329b6b1d823451bb460ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 39/55] fix: rank-k tasks on tiles declare C as read-write,
 only a triangle is written

---
 include/tlapack/starpu/codelets.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/starpu/codelets.hpp b/include/tlapack/starpu/codelets.hpp
index 05646c1..d46a9e3 100644
--- a/include/tlapack/starpu/codelets.hpp
+++ b/include/tlapack/starpu/codelets.hpp
@@ -96,7 +96,8 @@ namespace starpu {
             cl.cpu_funcs[0] = func::syrk<TA, TC, alpha_t, beta_t>;
             cl.nbuffers = 2;
             cl.modes[0] = STARPU_R;
-            cl.modes[1] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            // Only one triangle is written: the rest must be kept
+            cl.modes[1] = STARPU_RW;
             cl.name = "tlapack::starpu::syrk";
 
             // The following lines are needed to make the codelet const
@@ -121,7 +122,8 @@ namespace starpu {
             }
             cl.nbuffers = 2;
             cl.modes[0] = STARPU_R;
-            cl.modes[1] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            // Only one triangle is written: the rest must be kept
+            cl.modes[1] = STARPU_RW;
             cl.name = "tlapack::starpu::herk";
 
             // The following lines are needed to make the codelet const
@@ -142,7 +144,8 @@ namespace starpu {
             cl.nbuffers = 3;
             cl.modes[0] = STARPU_R;
             cl.modes[1] = STARPU_R;
-            cl.modes[2] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            // Only one triangle is written: the rest must be kept
+            cl.modes[2] = STARPU_RW;
             cl.name = "tlapack::starpu::syr2k";
 
             // The following lines are needed to make the codelet const
@@ -162,7 +165,8 @@ namespace starpu {
             cl.nbuffers = 3;
             cl.modes[0] = STARPU_R;
             cl.modes[1] = STARPU_R;
-            cl.modes[2] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            // Only one triangle is written: the rest must be kept
+            cl.modes[2] = STARPU_RW;
             cl.name = "tlapack::starpu::her2k";
 
             // The following lines are needed to make the codelet const
-- 
2.43.0


From 0f6bb4c6da63ce8dd50c550b76b9d1697486177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 40/55] fix: insert_task_gemm checks the inner dimension of the
 tiles

---
 include/tlapack/starpu/tasks.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tlapack/starpu/tasks.hpp b/include/tlapack/starpu/tasks.hpp
index 9e63443..1498da7 100644
--- a/include/tlapack/starpu/tasks.hpp
+++ b/include/tlapack/starpu/tasks.hpp
@@ -42,6 +42,8 @@ namespace starpu {
         // check sizes
         tlapack_check(C.m == (transA == Op::NoTrans ? A.m : A.n));
         tlapack_check(C.n == (transB == Op::NoTrans ? B.n : B.m));
+        tlapack_check((transA == Op::NoTrans ? A.n : A.m) ==
+                      (transB == Op::NoTrans ? B.m : B.n));
 
         // Allocate space for the task
         struct starpu_task* task = starpu_task_create();
-- 
2.43.0


From b2914ec438b6168d89860225af1e81186bf97c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 41/55] fix: slice of a Backward LegacyVector starts at the
 right end

---
 include/tlapack/plugins/legacyArray.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..dcb3da4 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -380,8 +380,12 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // A backward vector starts at the end of its storage
+    const idx_t start = (direction == Direction::Forward)
+                            ? (idx_t)rows.first
+                            : v.n - (idx_t)rows.second;
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[start * v.inc], v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -568,8 +572,12 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    // A backward vector starts at the end of its storage
+    const idx_t start = (direction == Direction::Forward)
+                            ? (idx_t)rows.first
+                            : v.n - (idx_t)rows.second;
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[start * v.inc], v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From 695b7d8bee56b1fe2fc93e84823a31c7be4b5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 42/55] fix: legacy ung2r uses k reflectors

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..a765aba 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -12,6 +12,7 @@
 #ifndef TLAPACK_LEGACY_UNG2R_HH
 #define TLAPACK_LEGACY_UNG2R_HH
 
+#include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/ung2r.hpp"
 
 namespace tlapack {
@@ -35,7 +36,7 @@ namespace legacy {
      * GEQRF in the first k columns of its array argument A. On exit, the m-by-n
      * matrix $Q  = H_1 H_2 ... H_k$.
      * @param[in] lda The leading dimension of A. lda >= max(1,m).
-     * @param[in] tau Real vector of length min(m,n).
+     * @param[in] tau Vector of length k.
      *      The scalar factors of the elementary reflectors.
      *
      * @ingroup legacy_lapack
@@ -57,7 +58,13 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
+
+        // Q is the identity if there are no reflectors
+        if (k == 0) {
+            laset(GENERAL, TA(0), TA(1), A_);
+            return 0;
+        }
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From 6a7eccbcfcf7d00af466e90c3d0aa1b2d38cea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 43/55] fix: legacy lascl on banded types respects the leading
 dimension and layout

---
 include/tlapack/legacy_api/lapack/lascl.hpp | 32 +++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..fc5a8ae 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -68,7 +68,6 @@ namespace legacy {
               T* A,
               idx_t lda)
     {
-        using internal::create_banded_matrix;
         using internal::create_matrix;
 
         // check arguments
@@ -103,17 +102,26 @@ namespace legacy {
         tlapack_check_false((matrixtype == MatrixType::Band) &&
                             (lda < 2 * kl + ku + 1));
 
-        if (matrixtype == MatrixType::LowerBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, 0);
-            return lascl(BandAccess{size_t(kl), 0}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::UpperBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, 0, ku);
-            return lascl(BandAccess{0, size_t(ku)}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::Band) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, ku);
-            return lascl(BandAccess{size_t(kl), size_t(ku)}, b, a, A_);
+        if (matrixtype == MatrixType::LowerBand ||
+            matrixtype == MatrixType::UpperBand ||
+            matrixtype == MatrixType::Band) {
+            // Bandwidths of the part stored, and row that holds the diagonal
+            const idx_t kl_ = (matrixtype == MatrixType::UpperBand) ? 0 : kl;
+            const idx_t ku_ = (matrixtype == MatrixType::LowerBand) ? 0 : ku;
+            const idx_t d =
+                (matrixtype == MatrixType::Band) ? kl + ku : ku_;
+
+            // Scale column by column, column j of A being stored in rows
+            // d + i - j of column j of the array
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t i0 = (j > ku_) ? j - ku_ : 0;
+                const idx_t i1 = min<idx_t>(m, j + kl_ + 1);
+                if (i0 >= i1) continue;
+                auto a_j =
+                    create_matrix<T>(A + (d + i0 - j) + j * lda, i1 - i0, 1);
+                lascl(GENERAL, b, a, a_j);
+            }
+            return 0;
         }
         else {
             auto A_ = create_matrix<T>(A, m, n, lda);
-- 
2.43.0


From d90a28e29845affc5c06895ef31d834bb935e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 44/55] fix: iamax returns a valid index when no entry compares
 greater than -1

The index started at -1, i.e. at the largest value of the unsigned index
type.  A vector without a comparable entry (all NaN in the version
without NaN checks) therefore gave an index far outside of the vector.
---
 include/tlapack/blas/iamax.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/iamax.hpp b/include/tlapack/blas/iamax.hpp
index b0355e4..dc64093 100644
--- a/include/tlapack/blas/iamax.hpp
+++ b/include/tlapack/blas/iamax.hpp
@@ -81,7 +81,7 @@ size_type<vector_t> iamax_ec(const vector_t& x, abs_f absf)
 
     bool scaledsmax = false;  // indicates whether |x_i| = Inf
     real_t smax(-1);
-    idx_t index = -1;
+    idx_t index = 0;
     idx_t i = 0;
     for (; i < n; ++i) {
         if (isnan(x[i])) {
@@ -171,7 +171,7 @@ size_type<vector_t> iamax_nc(const vector_t& x, abs_f absf)
 
     bool scaledsmax = false;  // indicates whether |x_i| = Inf
     real_t smax(-1);
-    idx_t index = -1;
+    idx_t index = 0;
     idx_t i = 0;
     for (; i < n; ++i) {
         if (isinf(x[i])) {
-- 
2.43.0


From 9e5a6d3e04a6bed7c7a9edfe2fa7a2a8cf8e89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 45/55] fix: StrongZero from a number is not noexcept

The constructors compare their argument with zero in an assertion, which
may throw for a user-defined number type and would then terminate the
program.
---
 include/tlapack/base/StrongZero.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/StrongZero.hpp b/include/tlapack/base/StrongZero.hpp
index 3e1e46f..1a41535 100644
--- a/include/tlapack/base/StrongZero.hpp
+++ b/include/tlapack/base/StrongZero.hpp
@@ -46,13 +46,13 @@ struct StrongZero {
     constexpr StrongZero() {}
 
     template <typename T>
-    constexpr StrongZero(const T& x) noexcept
+    constexpr StrongZero(const T& x)
     {
         assert(x == T(0));
     }
 
     template <typename T, typename U>
-    constexpr StrongZero(const T& x, const U& y) noexcept
+    constexpr StrongZero(const T& x, const U& y)
     {
         assert(x == T(0));
         assert(y == U(0));
-- 
2.43.0


From 0ec648e046f72aa57dc36b4e72a6e7004a606930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:16 +0000
Subject: [PATCH 46/55] fix: the sort in aggressive_early_deflation terminates
 for equal eigenvalues

The last block of the sorting window was compared with the block after
the window.  If both are 2-by-2 blocks that compare as equal, or cannot
be exchanged, the window never shrinks and the loop never ends.
---
 include/tlapack/lapack/aggressive_early_deflation.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..a5685ab 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -340,11 +340,8 @@ void aggressive_early_deflation_work(bool want_t,
             if (is_real<T>)
                 if (TW(i1 + 1, i1) != zero) n1 = 2;
 
-            // Check if there is a next block
-            if (i1 + n1 == jw) {
-                ilst = ilst - n1;
-                break;
-            }
+            // Check if there is a next block in the window
+            if (i1 + n1 >= sorting_window_size) break;
 
             // Index of the second block
             idx_t i2 = i1 + n1;
-- 
2.43.0


From bcba5c572f8749a44b4598e535ffa12a1a8a5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:53 +0000
Subject: [PATCH 47/55] fix: lasrt: the scan from the right stops at the start
 of the range

---
 include/tlapack/lapack/lasrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lasrt.hpp b/include/tlapack/lapack/lasrt.hpp
index f58bbd4..19df16b 100644
--- a/include/tlapack/lapack/lasrt.hpp
+++ b/include/tlapack/lapack/lasrt.hpp
@@ -116,8 +116,8 @@ int lasrt(char id, idx_t n, d_t& d)
                 while (i <= end && ((dir == 0 && d[i] > pivot) ||
                                     (dir == 1 && d[i] < pivot)))
                     ++i;
-                while (j >= start && ((dir == 0 && d[j] < pivot) ||
-                                      (dir == 1 && d[j] > pivot)))
+                while (j > start && ((dir == 0 && d[j] < pivot) ||
+                                     (dir == 1 && d[j] > pivot)))
                     --j;
 
                 if (i < j) {
-- 
2.43.0


From 70f908b731605e8d018f0cbf7a5094eb2d489ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 48/55] fix: mult_hehe printed an empty line in every recursive
 call

---
 include/tlapack/lapack/mult_hehe.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 710e3b2..4d0e595 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -140,8 +140,6 @@ void mult_hehe(Uplo uplo,
         auto C10 = slice(C, range(n0, n), range(0, n0));
         auto C11 = slice(C, range(n0, n), range(n0, n));
 
-        std::cout << std::endl;
-
         // A00*B00 = C00
         mult_hehe(LOWER_TRIANGLE, alpha, A00, B00, beta, C00);
 
-- 
2.43.0


From 5b2647b48202ec51d127df62872371b8522cb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 49/55] fix: geqrt3 printed to standard output and returned
 normally for m < n; check the argument instead

---
 include/tlapack/lapack/geqrt3.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/geqrt3.hpp b/include/tlapack/lapack/geqrt3.hpp
index e9700c4..d508765 100644
--- a/include/tlapack/lapack/geqrt3.hpp
+++ b/include/tlapack/lapack/geqrt3.hpp
@@ -61,15 +61,8 @@ void geqrt3(matrix_a& A, matrix_h& Tmatrix, const Geqrt3Opts& opts = {})
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    auto info = 0;
-    if (m < n) {
-        std::cout << "Error: m < n" << std::endl;
-        info = -1;
-    }
-
-    if (info != 0) {
-        return;
-    }
+    // check arguments
+    tlapack_check_false(m < n);
 
     if (n == 1) {
         // Turn the single column into a vector
-- 
2.43.0


From f1eecbfd7a94bef5ad7b0e6661ae1ab6e214a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 50/55] fix: tik_qr, tik_svd and tik_bidiag_elden check the
 sizes of A and b before overwriting A, and return at once for n = 0

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 4 ++++
 include/tlapack/lapack/tik_qr.hpp           | 4 ++++
 include/tlapack/lapack/tik_svd.hpp          | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..d61e35b 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -50,6 +50,7 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
     // check arguments
     tlapack_check(nrows(A) >= ncols(A));
+    tlapack_check(nrows(b) == nrows(A));
 
     // Initliazation for basic utilities
     using T = type_t<matrixA_t>;
@@ -63,6 +64,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
diff --git a/include/tlapack/lapack/tik_qr.hpp b/include/tlapack/lapack/tik_qr.hpp
index fcc681a..e7afeac 100644
--- a/include/tlapack/lapack/tik_qr.hpp
+++ b/include/tlapack/lapack/tik_qr.hpp
@@ -36,6 +36,10 @@ template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_REAL real_t>
 void tik_qr(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
+    // check arguments
+    tlapack_check(nrows(A) >= ncols(A));
+    tlapack_check(nrows(b) == nrows(A));
+
     // Initliazation for basic utilities
     using T = type_t<matrixA_t>;
     using idx_t = size_type<matrixA_t>;
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..86b3ca5 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -37,6 +37,10 @@ template <TLAPACK_MATRIX matrixA_t,
           TLAPACK_REAL real_t>
 void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 {
+    // check arguments
+    tlapack_check(nrows(A) >= ncols(A));
+    tlapack_check(nrows(b) == nrows(A));
+
     using T = type_t<matrixA_t>;
     using idx_t = size_type<matrixA_t>;
 
@@ -46,6 +50,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     using range = pair<idx_t, idx_t>;
 
     std::vector<T> tauv(n);
-- 
2.43.0


From 0705125858518ac05a45c825bf4458408d649d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 51/55] fix: ungtr checks uplo, Q and tau before it changes Q

---
 include/tlapack/lapack/ungtr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tlapack/lapack/ungtr.hpp b/include/tlapack/lapack/ungtr.hpp
index 0a6b679..b331bca 100644
--- a/include/tlapack/lapack/ungtr.hpp
+++ b/include/tlapack/lapack/ungtr.hpp
@@ -51,6 +51,11 @@ int ungtr(uplo_t uplo, Q_t& Q, const tau_t& tau)
     const real_t one(1);
     const real_t zero(0);
 
+    // check arguments
+    tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
+    tlapack_check_false(nrows(Q) != ncols(Q));
+    tlapack_check_false(n > 0 && (idx_t)size(tau) > n - 1);
+
     // Quick return if possible
     if (n == 0) return 0;
 
-- 
2.43.0


From c18c596f1964128e06c76283d27cab89fceae114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 52/55] fix: gesvd, svd_qr and steqr check the sizes of their
 arguments

---
 include/tlapack/lapack/gesvd.hpp  | 5 +++++
 include/tlapack/lapack/steqr.hpp  | 4 ++++
 include/tlapack/lapack/svd_qr.hpp | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/include/tlapack/lapack/gesvd.hpp b/include/tlapack/lapack/gesvd.hpp
index 04300a8..5b0b64d 100644
--- a/include/tlapack/lapack/gesvd.hpp
+++ b/include/tlapack/lapack/gesvd.hpp
@@ -84,6 +84,11 @@ int gesvd(bool want_u,
     const idx_t k = min(m, n);
     const Uplo uplo = (m >= n) ? Uplo::Upper : Uplo::Lower;
 
+    // check arguments
+    tlapack_check((idx_t)size(s) == k);
+    if (want_u) tlapack_check(nrows(U) == m && ncols(U) >= k);
+    if (want_vt) tlapack_check(nrows(Vt) >= k && ncols(Vt) == n);
+
     // Allocate vectors
     std::vector<type_t<matrix_t>> tauv_, tauw_;
     auto tauv = new_vector(tauv_, k);
diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..c264ceb 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -85,6 +85,10 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     const real_t zero(0);
     const idx_t n = size(d);
 
+    // check arguments
+    tlapack_check((idx_t)size(e) + 1 >= n);
+    if (want_z) tlapack_check((idx_t)ncols(Z) >= n);
+
     // Quick return if possible
     if (n == 0) return 0;
     if (n == 1) return 0;
diff --git a/include/tlapack/lapack/svd_qr.hpp b/include/tlapack/lapack/svd_qr.hpp
index 86e9497..fcc4b07 100644
--- a/include/tlapack/lapack/svd_qr.hpp
+++ b/include/tlapack/lapack/svd_qr.hpp
@@ -105,6 +105,11 @@ int svd_qr(Uplo uplo,
         max(real_t(10.0), min(real_t(100.0), one / sqrt(sqrt(sqrt(eps)))));
     const real_t tol = tolmul * eps;
 
+    // check arguments
+    tlapack_check((idx_t)size(e) + 1 >= n);
+    if (want_u) tlapack_check(ncols(U) >= n);
+    if (want_vt) tlapack_check(nrows(Vt) >= n);
+
     // Quick return
     if (n == 0) return 0;
 
-- 
2.43.0


From 1fb4d01415dc0e7f7e1d0969d8350d81b9148476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:56 +0000
Subject: [PATCH 53/55] fix: multishift_qr and aggressive_early_deflation
 (allocating) check their arguments before they write

---
 include/tlapack/lapack/aggressive_early_deflation.hpp | 8 ++++++++
 include/tlapack/lapack/multishift_qr.hpp              | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index a5685ab..b7d75bc 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -622,6 +622,14 @@ void aggressive_early_deflation(bool want_t,
     // First row index in the deflation window
     const idx_t kwtop = ihi - jw;
 
+    // check arguments
+    tlapack_check(nrows(A) == n);
+    if (want_z) {
+        tlapack_check(ncols(Z) == n);
+        tlapack_check(nrows(Z) == n);
+    }
+    tlapack_check((idx_t)size(s) == n);
+
     // s is the value just outside the window. It determines the spike
     // together with the orthogonal schur factors.
     T s_spike;
diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index d81ebbf..b222b8b 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -477,6 +477,13 @@ int multishift_qr(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
+    // check arguments
+    tlapack_check_false(n != nrows(A));
+    tlapack_check_false((idx_t)size(w) != n);
+    if (want_z) {
+        tlapack_check_false((n != ncols(Z)) or (n != nrows(Z)));
+    }
+
     // quick return
     if (nh <= 0) return 0;
     if (nh == 1) w[ilo] = A(ilo, ilo);
-- 
2.43.0


From 0393db585c7dab4aebd6178cf6437f2bddfad73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:06 +0000
Subject: [PATCH 54/55] fix: gehrd checks its arguments before the workspace
 query slices the matrix

---
 include/tlapack/lapack/gehrd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 458f78b..ce327a8 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -238,6 +238,12 @@ int gehrd(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ihi < 0) or (ihi > n));
+    tlapack_check_false(ncols(A) != nrows(A));
+    tlapack_check_false((idx_t)size(tau) < n - 1);
+
     // Allocates workspace
     WorkInfo workinfo = gehrd_worksize<T>(ilo, ihi, A, tau, opts);
     std::vector<T> work_;
-- 
2.43.0


From 91b46f504d3d57882a7ad34addc54dd4378ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:39 +0000
Subject: [PATCH 55/55] fix: larfb (allocating) checks all its arguments before
 the quick return

---
 include/tlapack/lapack/larfb.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..2601be9 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -531,6 +531,20 @@ int larfb(side_t side,
 
     // check arguments
     tlapack_check_false(side != Side::Left && side != Side::Right);
+    tlapack_check_false(
+        trans != Op::NoTrans && trans != Op::ConjTrans &&
+        ((trans != Op::Trans) || is_complex<type_t<matrixV_t>>));
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    tlapack_check_false(storeMode != StoreV::Columnwise &&
+                        storeMode != StoreV::Rowwise);
+    tlapack_check(
+        (storeMode == StoreV::Columnwise)
+            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
+                                                       : (nrows(V) == n))
+            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
+                                                       : (ncols(V) == n)));
+    tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
-- 
2.43.0


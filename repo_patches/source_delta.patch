From 44bcfd22526fd3ab71a230a67157b0862ee6f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 01/18] fix: keep the denominator of a Fraction positive

---
 lib/include/py2cpp/fractions.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..d228cdd 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,11 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        if (_denominator < Z(0))
+        {
+            _numerator = -_numerator;
+            _denominator = -_denominator;
+        }
     }
 
     /*!
@@ -379,6 +384,11 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        if (this->_denominator < Z(0))
+        {
+            this->_numerator = -this->_numerator;
+            this->_denominator = -this->_denominator;
+        }
         return *this;
     }
 
-- 
2.43.0


From 58f65ef88b619e051feff928fe00b54ce7668afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:17 +0000
Subject: [PATCH 02/18] fix: CSD of a magnitude between 2/3 and 1 had adjacent
 non-zero digits

---
 lib/src/csd.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..c2a0b8b 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -22,8 +22,8 @@ auto to_csd(double num, int places = 0) noexcept -> string
         return "0";
     }
     auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -108,8 +108,8 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
         return "0";
     }
     auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > 0 || nnz > 0)
     {
-- 
2.43.0


From 78b39803c9d4c815ebe710464445cdaf73feae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:17 +0000
Subject: [PATCH 03/18] fix: to_csdfixed did not end when fewer non-zero digits
 than allowed suffice

---
 lib/src/csd.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index c2a0b8b..f0fe915 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -111,7 +111,11 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    if (nnz == 0)
+    {
+        num = 0;
+    }
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
         if (n == 0)
         {
-- 
2.43.0


From 0e06a3d3be6df989a446ce374f4b3e07f9df237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:48 +0000
Subject: [PATCH 04/18] fix: QMI cut gradient took rows of F_k where the
 witness selects columns

---
 lib/src/qmi_oracle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..3bffbb4 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        const auto Fkp = Arr {COLUMN(this->_F[k], xt::range(start, stop))};
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From 9335274ae060750df11b61eb3a3212f58044bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 05/18] fix: parallel cut lost all accuracy for opposite or
 tiny offsets

---
 lib/src/ell.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..2af28eb 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,10 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // no cancellation, even if b0 == -b1
+    const auto bdiffn = this->_halfN * bdiff;
+    this->_sigma = this->_c3 +
+        this->_c2 * (1. - bdiffn * (bdiffn / this->_tsq)) / (1. + b0b1n + xi);
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +70,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // no cancellation, even if b1 is small
+    this->_sigma =
+        this->_c3 + this->_c2 * (1. - this->_halfN * temp) / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 50fac3fa7acaa3f4e297ec84a307e2c68583aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 06/18] fix: cutting-plane loops ran 2^32 times for max_it == 0

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..a309aab 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -143,7 +143,7 @@ auto cutting_plane_q(
     auto status = CUTStatus::nosoln; // note!!!
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
-- 
2.43.0


From 904147e1f15704620bd41c1b38b997ab5fee954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 07/18] fix: cutting_plane_q never asked for the alternative
 cut after a cut without effect

---
 lib/include/ellcpp/cutting_plane.hpp | 585 ++++++++++++++-------------
 1 file changed, 293 insertions(+), 292 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index a309aab..ce010c2 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -1,292 +1,293 @@
-// -*- coding: utf-8 -*-
-#pragma once
-
-#include "cut_config.hpp"
-#include "half_nonnegative.hpp"
-#include <cassert>
-#include <cmath>
-#include <tuple>
-
-
-/*!
- * @brief Find a point in a convex set (defined through a cutting-plane oracle).
- *
- *     A function f(x) is *convex* if there always exist a g(x)
- *     such that f(z) >= f(x) + g(x)' * (z - x), forall z, x in dom f.
- *     Note that dom f does not need to be a convex set in our definition.
- *     The affine function g' (x - xc) + beta is called a cutting-plane,
- *     or a ``cut'' for short.
- *     This algorithm solves the following feasibility problem:
- *
- *             find x
- *             s.t. f(x) <= 0,
- *
- *     A *separation oracle* asserts that an evalution point x0 is feasible,
- *     or provide a cut that separates the feasible region and x0.
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space>
-auto cutting_plane_feas(
-    Oracle&& Omega, Space&& S, const Options& options = Options()) -> CInfo
-{
-    auto feasible = false;
-    auto status = CUTStatus::success;
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
-        if (!cut)
-        { // feasible sol'n obtained
-            feasible = true;
-            break;
-        }
-        const auto [cutstatus, tsq] = S.update(*cut); // update S
-        if (cutstatus != CUTStatus::success)
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        { // no more
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return {feasible, niter, status};
-}
-
-/*!
- * @brief Cutting-plane method for solving convex problem
- *
- * @tparam Oracle
- * @tparam Space
- * @tparam opt_type
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in,out] t     best-so-far optimal sol'n
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space, typename opt_type>
-auto cutting_plane_dc(
-    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
-{
-    const auto t_orig = t;
-    decltype(S.xc()) x_best;
-    auto status = CUTStatus::success;
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        const auto [cut, shrunk] = Omega(S.xc(), t);
-        if (shrunk)
-        { // best t obtained
-            x_best = S.xc();
-        }
-        const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus != CUTStatus::success) // ???
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        { // no more
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return std::make_tuple(
-        std::move(x_best), CInfo {t != t_orig, niter, status});
-} // END
-
-/*!
-    Cutting-plane method for solving convex discrete optimization problem
-    input
-             oracle        perform assessment on x0
-             S(xc)         Search space containing x*
-             t             best-so-far optimal sol'n
-             max_it        maximum number of iterations
-             tol           error tolerance
-    output
-             x             solution vector
-             niter          number of iterations performed
-**/
-// #include <boost/numeric/ublas/symmetric.hpp>
-// namespace bnu = boost::numeric::ublas;
-// #include <xtensor-blas/xlinalg.hpp>
-// #include <xtensor/xarray.hpp>
-
-/*!
- * @brief Cutting-plane method for solving convex discrete optimization problem
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in,out] t     best-so-far optimal sol'n
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space, typename opt_type>
-auto cutting_plane_q(
-    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
-{
-    const auto t_orig = t;
-    decltype(S.xc()) x_best;
-    auto status = CUTStatus::nosoln; // note!!!
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        auto retry = (status == CUTStatus::noeffect);
-        const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
-        if (shrunk)
-        { // best t obtained
-            // t = t1;
-            x_best = x0;
-        }
-        const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus == CUTStatus::noeffect)
-        {
-            if (!more_alt)
-            {
-                break; // no more alternative cut
-            }
-        }
-        if (cutstatus == CUTStatus::nosoln)
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        {
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return std::make_tuple(
-        std::move(x_best), CInfo {t != t_orig, niter, status});
-} // END
-
-/*!
- * @brief
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega    perform assessment on x0
- * @param[in,out] I        interval containing x*
- * @param[in]     options  maximum iteration and error tolerance etc.
- * @return CInfo
- */
-template <typename Oracle, typename Space>
-auto bsearch(Oracle&& Omega, Space&& I, const Options& options = Options())
-    -> CInfo
-{
-    // assume monotone
-    // auto& [lower, upper] = I;
-    auto& lower = I.first;
-    auto& upper = I.second;
-    assert(lower <= upper);
-    const auto u_orig = upper;
-    auto niter = 0U;
-    auto status = CUTStatus::success;
-
-    for (; niter != options.max_it; ++niter)
-    {
-        auto tau = algo::half_nonnegative(upper - lower);
-        if (tau < options.tol)
-        {
-            status = CUTStatus::smallenough;
-            break;
-        }
-
-        auto t = lower; // l may be `int` or `Fraction`
-        t += tau;
-        if (Omega(t))
-        { // feasible sol'n obtained
-            upper = t;
-        }
-        else
-        {
-            lower = t;
-        }
-    }
-    return {upper != u_orig, niter + 1, status};
-}
-
-/*!
- * @brief
- *
- * @tparam Oracle
- * @tparam Space
- */
-template <typename Oracle, typename Space> //
-class bsearch_adaptor
-{
-  private:
-    Oracle& _P;
-    Space& _S;
-    const Options _options;
-
-  public:
-    /*!
-     * @brief Construct a new bsearch adaptor object
-     *
-     * @param[in,out] P perform assessment on x0
-     * @param[in,out] S search Space containing x*
-     */
-    bsearch_adaptor(Oracle& P, Space& S)
-        : bsearch_adaptor {P, S, Options()}
-    {
-    }
-
-    /*!
-     * @brief Construct a new bsearch adaptor object
-     *
-     * @param[in,out] P perform assessment on x0
-     * @param[in,out] S search Space containing x*
-     * @param[in] options maximum iteration and error tolerance etc.
-     */
-    bsearch_adaptor(Oracle& P, Space& S, const Options& options)
-        : _P {P}
-        , _S {S}
-        , _options {options}
-    {
-    }
-
-    /*!
-     * @brief get best x
-     *
-     * @return auto
-     */
-    [[nodiscard]] auto x_best() const
-    {
-        return this->_S.xc();
-    }
-
-    /*!
-     * @brief
-     *
-     * @param[in] t the best-so-far optimal value
-     * @return bool
-     */
-    template <typename opt_type>
-    auto operator()(const opt_type& t) -> bool
-    {
-        Space S = this->_S.copy();
-        this->_P.update(t);
-        const auto ell_info = cutting_plane_feas(this->_P, S, this->_options);
-        if (ell_info.feasible)
-        {
-            this->_S.set_xc(S.xc());
-        }
-        return ell_info.feasible;
-    }
-};
+// -*- coding: utf-8 -*-
+#pragma once
+
+#include "cut_config.hpp"
+#include "half_nonnegative.hpp"
+#include <cassert>
+#include <cmath>
+#include <tuple>
+
+
+/*!
+ * @brief Find a point in a convex set (defined through a cutting-plane oracle).
+ *
+ *     A function f(x) is *convex* if there always exist a g(x)
+ *     such that f(z) >= f(x) + g(x)' * (z - x), forall z, x in dom f.
+ *     Note that dom f does not need to be a convex set in our definition.
+ *     The affine function g' (x - xc) + beta is called a cutting-plane,
+ *     or a ``cut'' for short.
+ *     This algorithm solves the following feasibility problem:
+ *
+ *             find x
+ *             s.t. f(x) <= 0,
+ *
+ *     A *separation oracle* asserts that an evalution point x0 is feasible,
+ *     or provide a cut that separates the feasible region and x0.
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space>
+auto cutting_plane_feas(
+    Oracle&& Omega, Space&& S, const Options& options = Options()) -> CInfo
+{
+    auto feasible = false;
+    auto status = CUTStatus::success;
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
+        if (!cut)
+        { // feasible sol'n obtained
+            feasible = true;
+            break;
+        }
+        const auto [cutstatus, tsq] = S.update(*cut); // update S
+        if (cutstatus != CUTStatus::success)
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        { // no more
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return {feasible, niter, status};
+}
+
+/*!
+ * @brief Cutting-plane method for solving convex problem
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @tparam opt_type
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in,out] t     best-so-far optimal sol'n
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space, typename opt_type>
+auto cutting_plane_dc(
+    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
+{
+    const auto t_orig = t;
+    decltype(S.xc()) x_best;
+    auto status = CUTStatus::success;
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        const auto [cut, shrunk] = Omega(S.xc(), t);
+        if (shrunk)
+        { // best t obtained
+            x_best = S.xc();
+        }
+        const auto [cutstatus, tsq] = S.update(cut);
+        if (cutstatus != CUTStatus::success) // ???
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        { // no more
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return std::make_tuple(
+        std::move(x_best), CInfo {t != t_orig, niter, status});
+} // END
+
+/*!
+    Cutting-plane method for solving convex discrete optimization problem
+    input
+             oracle        perform assessment on x0
+             S(xc)         Search space containing x*
+             t             best-so-far optimal sol'n
+             max_it        maximum number of iterations
+             tol           error tolerance
+    output
+             x             solution vector
+             niter          number of iterations performed
+**/
+// #include <boost/numeric/ublas/symmetric.hpp>
+// namespace bnu = boost::numeric::ublas;
+// #include <xtensor-blas/xlinalg.hpp>
+// #include <xtensor/xarray.hpp>
+
+/*!
+ * @brief Cutting-plane method for solving convex discrete optimization problem
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in,out] t     best-so-far optimal sol'n
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space, typename opt_type>
+auto cutting_plane_q(
+    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
+{
+    const auto t_orig = t;
+    decltype(S.xc()) x_best;
+    auto status = CUTStatus::nosoln; // note!!!
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        auto retry = (status == CUTStatus::noeffect);
+        const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
+        if (shrunk)
+        { // best t obtained
+            // t = t1;
+            x_best = x0;
+        }
+        const auto [cutstatus, tsq] = S.update(cut);
+        status = cutstatus; // a cut without effect makes a retry
+        if (cutstatus == CUTStatus::noeffect)
+        {
+            if (!more_alt)
+            {
+                break; // no more alternative cut
+            }
+        }
+        if (cutstatus == CUTStatus::nosoln)
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        {
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return std::make_tuple(
+        std::move(x_best), CInfo {t != t_orig, niter, status});
+} // END
+
+/*!
+ * @brief
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega    perform assessment on x0
+ * @param[in,out] I        interval containing x*
+ * @param[in]     options  maximum iteration and error tolerance etc.
+ * @return CInfo
+ */
+template <typename Oracle, typename Space>
+auto bsearch(Oracle&& Omega, Space&& I, const Options& options = Options())
+    -> CInfo
+{
+    // assume monotone
+    // auto& [lower, upper] = I;
+    auto& lower = I.first;
+    auto& upper = I.second;
+    assert(lower <= upper);
+    const auto u_orig = upper;
+    auto niter = 0U;
+    auto status = CUTStatus::success;
+
+    for (; niter != options.max_it; ++niter)
+    {
+        auto tau = algo::half_nonnegative(upper - lower);
+        if (tau < options.tol)
+        {
+            status = CUTStatus::smallenough;
+            break;
+        }
+
+        auto t = lower; // l may be `int` or `Fraction`
+        t += tau;
+        if (Omega(t))
+        { // feasible sol'n obtained
+            upper = t;
+        }
+        else
+        {
+            lower = t;
+        }
+    }
+    return {upper != u_orig, niter + 1, status};
+}
+
+/*!
+ * @brief
+ *
+ * @tparam Oracle
+ * @tparam Space
+ */
+template <typename Oracle, typename Space> //
+class bsearch_adaptor
+{
+  private:
+    Oracle& _P;
+    Space& _S;
+    const Options _options;
+
+  public:
+    /*!
+     * @brief Construct a new bsearch adaptor object
+     *
+     * @param[in,out] P perform assessment on x0
+     * @param[in,out] S search Space containing x*
+     */
+    bsearch_adaptor(Oracle& P, Space& S)
+        : bsearch_adaptor {P, S, Options()}
+    {
+    }
+
+    /*!
+     * @brief Construct a new bsearch adaptor object
+     *
+     * @param[in,out] P perform assessment on x0
+     * @param[in,out] S search Space containing x*
+     * @param[in] options maximum iteration and error tolerance etc.
+     */
+    bsearch_adaptor(Oracle& P, Space& S, const Options& options)
+        : _P {P}
+        , _S {S}
+        , _options {options}
+    {
+    }
+
+    /*!
+     * @brief get best x
+     *
+     * @return auto
+     */
+    [[nodiscard]] auto x_best() const
+    {
+        return this->_S.xc();
+    }
+
+    /*!
+     * @brief
+     *
+     * @param[in] t the best-so-far optimal value
+     * @return bool
+     */
+    template <typename opt_type>
+    auto operator()(const opt_type& t) -> bool
+    {
+        Space S = this->_S.copy();
+        this->_P.update(t);
+        const auto ell_info = cutting_plane_feas(this->_P, S, this->_options);
+        if (ell_info.feasible)
+        {
+            this->_S.set_xc(S.xc());
+        }
+        return ell_info.feasible;
+    }
+};
-- 
2.43.0


From f86b7f09cb8f5b1b7109af71fce7954367585131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 08/18] fix: a cut at beta = -tau/n has no effect (ell_stable
 divided by zero there)

---
 lib/src/ell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 2af28eb..646c786 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -37,7 +37,7 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     }
 
     const auto b0b1n = b0 * (b1 / this->_tsq);
-    if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))
+    if (ELL_UNLIKELY(this->_nFloat * b0b1n <= -1.))
     {
         return CUTStatus::noeffect; // no effect
     }
@@ -100,7 +100,7 @@ CUTStatus ell::_calc_dc(const double& beta) noexcept
     }
 
     const auto gamma = tau + this->_nFloat * beta;
-    if (ELL_UNLIKELY(gamma < 0))
+    if (ELL_UNLIKELY(gamma <= 0.))
     {
         return CUTStatus::noeffect; // no effect
     }
-- 
2.43.0


From 859138cc1f351cfccb2644b3ce32b30a75733b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 09/18] fix: gradient of a one-term posynomial called a member
 that does not exist

---
 lib/include/ellip/posynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 63cb9e6..2ecf8ab 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -164,7 +164,7 @@ class posynomial
 
         if (N == 1)
         { // monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
@@ -215,7 +215,7 @@ class posynomial
 
         if (N == 1)
         { // i.e. monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
-- 
2.43.0


From 048ed53cd2a22ca4eb7b92ebfce7c63d7764e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 10/18] fix: adding an edge that exists already was counted as
 another edge

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++---
 lib/include/xnetwork/classes/graph.hpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..b881274 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -343,9 +343,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -360,10 +360,10 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         auto data = this->_adj[u].get(v, T {});
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -371,8 +371,8 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..500f1f0 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,9 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -642,10 +642,10 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         auto data = this->_adj[u].get(v, T {});
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -653,9 +653,9 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From 30a51c927a1b7337eee54982155e3447c8090c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 11/18] fix: a moved DiGraphS kept referring to the graph it
 was moved from

---
 lib/include/xnetwork/classes/digraphs.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index b881274..ecaa331 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,13 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    /*! Move constructor. `_succ` refers to the adjacency of this very graph. */
+    DiGraphS(DiGraphS&& G) noexcept
+        : _Base {std::move(G)}
+        , _succ {_Base::_adj}
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From 67c2a71add2bfe3250c73f2ac6fe858ed411a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 12/18] fix: adding a posynomial to itself did not end

---
 lib/include/ellip/posynomial.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 2ecf8ab..15e0ea5 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -73,7 +73,8 @@ class posynomial
     /** Add and assign */
     _Self& operator+=(const _Self& P)
     {
-        for (auto i = 0; i != P._M.size(); ++i)
+        const auto N = P._M.size(); // P may be *this
+        for (auto i = 0; i != N; ++i)
             _M.push_back(P._M[i]);
         return *this;
     }
-- 
2.43.0


From a687588222ca6cd7c4a130ab69ff6a25963fa999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 13/18] fix: restore the line endings of cutting_plane.hpp
 (904147e changed them all)

---
 lib/include/ellcpp/cutting_plane.hpp | 586 +++++++++++++--------------
 1 file changed, 293 insertions(+), 293 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index ce010c2..58db170 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -1,293 +1,293 @@
-// -*- coding: utf-8 -*-
-#pragma once
-
-#include "cut_config.hpp"
-#include "half_nonnegative.hpp"
-#include <cassert>
-#include <cmath>
-#include <tuple>
-
-
-/*!
- * @brief Find a point in a convex set (defined through a cutting-plane oracle).
- *
- *     A function f(x) is *convex* if there always exist a g(x)
- *     such that f(z) >= f(x) + g(x)' * (z - x), forall z, x in dom f.
- *     Note that dom f does not need to be a convex set in our definition.
- *     The affine function g' (x - xc) + beta is called a cutting-plane,
- *     or a ``cut'' for short.
- *     This algorithm solves the following feasibility problem:
- *
- *             find x
- *             s.t. f(x) <= 0,
- *
- *     A *separation oracle* asserts that an evalution point x0 is feasible,
- *     or provide a cut that separates the feasible region and x0.
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space>
-auto cutting_plane_feas(
-    Oracle&& Omega, Space&& S, const Options& options = Options()) -> CInfo
-{
-    auto feasible = false;
-    auto status = CUTStatus::success;
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
-        if (!cut)
-        { // feasible sol'n obtained
-            feasible = true;
-            break;
-        }
-        const auto [cutstatus, tsq] = S.update(*cut); // update S
-        if (cutstatus != CUTStatus::success)
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        { // no more
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return {feasible, niter, status};
-}
-
-/*!
- * @brief Cutting-plane method for solving convex problem
- *
- * @tparam Oracle
- * @tparam Space
- * @tparam opt_type
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in,out] t     best-so-far optimal sol'n
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space, typename opt_type>
-auto cutting_plane_dc(
-    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
-{
-    const auto t_orig = t;
-    decltype(S.xc()) x_best;
-    auto status = CUTStatus::success;
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        const auto [cut, shrunk] = Omega(S.xc(), t);
-        if (shrunk)
-        { // best t obtained
-            x_best = S.xc();
-        }
-        const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus != CUTStatus::success) // ???
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        { // no more
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return std::make_tuple(
-        std::move(x_best), CInfo {t != t_orig, niter, status});
-} // END
-
-/*!
-    Cutting-plane method for solving convex discrete optimization problem
-    input
-             oracle        perform assessment on x0
-             S(xc)         Search space containing x*
-             t             best-so-far optimal sol'n
-             max_it        maximum number of iterations
-             tol           error tolerance
-    output
-             x             solution vector
-             niter          number of iterations performed
-**/
-// #include <boost/numeric/ublas/symmetric.hpp>
-// namespace bnu = boost::numeric::ublas;
-// #include <xtensor-blas/xlinalg.hpp>
-// #include <xtensor/xarray.hpp>
-
-/*!
- * @brief Cutting-plane method for solving convex discrete optimization problem
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega perform assessment on x0
- * @param[in,out] S     search Space containing x*
- * @param[in,out] t     best-so-far optimal sol'n
- * @param[in] options   maximum iteration and error tolerance etc.
- * @return Information of Cutting-plane method
- */
-template <typename Oracle, typename Space, typename opt_type>
-auto cutting_plane_q(
-    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
-{
-    const auto t_orig = t;
-    decltype(S.xc()) x_best;
-    auto status = CUTStatus::nosoln; // note!!!
-
-    auto niter = 0U;
-    while (++niter < options.max_it)
-    {
-        auto retry = (status == CUTStatus::noeffect);
-        const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
-        if (shrunk)
-        { // best t obtained
-            // t = t1;
-            x_best = x0;
-        }
-        const auto [cutstatus, tsq] = S.update(cut);
-        status = cutstatus; // a cut without effect makes a retry
-        if (cutstatus == CUTStatus::noeffect)
-        {
-            if (!more_alt)
-            {
-                break; // no more alternative cut
-            }
-        }
-        if (cutstatus == CUTStatus::nosoln)
-        {
-            status = cutstatus;
-            break;
-        }
-        if (tsq < options.tol)
-        {
-            status = CUTStatus::smallenough;
-            break;
-        }
-    }
-    return std::make_tuple(
-        std::move(x_best), CInfo {t != t_orig, niter, status});
-} // END
-
-/*!
- * @brief
- *
- * @tparam Oracle
- * @tparam Space
- * @param[in,out] Omega    perform assessment on x0
- * @param[in,out] I        interval containing x*
- * @param[in]     options  maximum iteration and error tolerance etc.
- * @return CInfo
- */
-template <typename Oracle, typename Space>
-auto bsearch(Oracle&& Omega, Space&& I, const Options& options = Options())
-    -> CInfo
-{
-    // assume monotone
-    // auto& [lower, upper] = I;
-    auto& lower = I.first;
-    auto& upper = I.second;
-    assert(lower <= upper);
-    const auto u_orig = upper;
-    auto niter = 0U;
-    auto status = CUTStatus::success;
-
-    for (; niter != options.max_it; ++niter)
-    {
-        auto tau = algo::half_nonnegative(upper - lower);
-        if (tau < options.tol)
-        {
-            status = CUTStatus::smallenough;
-            break;
-        }
-
-        auto t = lower; // l may be `int` or `Fraction`
-        t += tau;
-        if (Omega(t))
-        { // feasible sol'n obtained
-            upper = t;
-        }
-        else
-        {
-            lower = t;
-        }
-    }
-    return {upper != u_orig, niter + 1, status};
-}
-
-/*!
- * @brief
- *
- * @tparam Oracle
- * @tparam Space
- */
-template <typename Oracle, typename Space> //
-class bsearch_adaptor
-{
-  private:
-    Oracle& _P;
-    Space& _S;
-    const Options _options;
-
-  public:
-    /*!
-     * @brief Construct a new bsearch adaptor object
-     *
-     * @param[in,out] P perform assessment on x0
-     * @param[in,out] S search Space containing x*
-     */
-    bsearch_adaptor(Oracle& P, Space& S)
-        : bsearch_adaptor {P, S, Options()}
-    {
-    }
-
-    /*!
-     * @brief Construct a new bsearch adaptor object
-     *
-     * @param[in,out] P perform assessment on x0
-     * @param[in,out] S search Space containing x*
-     * @param[in] options maximum iteration and error tolerance etc.
-     */
-    bsearch_adaptor(Oracle& P, Space& S, const Options& options)
-        : _P {P}
-        , _S {S}
-        , _options {options}
-    {
-    }
-
-    /*!
-     * @brief get best x
-     *
-     * @return auto
-     */
-    [[nodiscard]] auto x_best() const
-    {
-        return this->_S.xc();
-    }
-
-    /*!
-     * @brief
-     *
-     * @param[in] t the best-so-far optimal value
-     * @return bool
-     */
-    template <typename opt_type>
-    auto operator()(const opt_type& t) -> bool
-    {
-        Space S = this->_S.copy();
-        this->_P.update(t);
-        const auto ell_info = cutting_plane_feas(this->_P, S, this->_options);
-        if (ell_info.feasible)
-        {
-            this->_S.set_xc(S.xc());
-        }
-        return ell_info.feasible;
-    }
-};
+// -*- coding: utf-8 -*-
+#pragma once
+
+#include "cut_config.hpp"
+#include "half_nonnegative.hpp"
+#include <cassert>
+#include <cmath>
+#include <tuple>
+
+
+/*!
+ * @brief Find a point in a convex set (defined through a cutting-plane oracle).
+ *
+ *     A function f(x) is *convex* if there always exist a g(x)
+ *     such that f(z) >= f(x) + g(x)' * (z - x), forall z, x in dom f.
+ *     Note that dom f does not need to be a convex set in our definition.
+ *     The affine function g' (x - xc) + beta is called a cutting-plane,
+ *     or a ``cut'' for short.
+ *     This algorithm solves the following feasibility problem:
+ *
+ *             find x
+ *             s.t. f(x) <= 0,
+ *
+ *     A *separation oracle* asserts that an evalution point x0 is feasible,
+ *     or provide a cut that separates the feasible region and x0.
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space>
+auto cutting_plane_feas(
+    Oracle&& Omega, Space&& S, const Options& options = Options()) -> CInfo
+{
+    auto feasible = false;
+    auto status = CUTStatus::success;
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
+        if (!cut)
+        { // feasible sol'n obtained
+            feasible = true;
+            break;
+        }
+        const auto [cutstatus, tsq] = S.update(*cut); // update S
+        if (cutstatus != CUTStatus::success)
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        { // no more
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return {feasible, niter, status};
+}
+
+/*!
+ * @brief Cutting-plane method for solving convex problem
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @tparam opt_type
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in,out] t     best-so-far optimal sol'n
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space, typename opt_type>
+auto cutting_plane_dc(
+    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
+{
+    const auto t_orig = t;
+    decltype(S.xc()) x_best;
+    auto status = CUTStatus::success;
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        const auto [cut, shrunk] = Omega(S.xc(), t);
+        if (shrunk)
+        { // best t obtained
+            x_best = S.xc();
+        }
+        const auto [cutstatus, tsq] = S.update(cut);
+        if (cutstatus != CUTStatus::success) // ???
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        { // no more
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return std::make_tuple(
+        std::move(x_best), CInfo {t != t_orig, niter, status});
+} // END
+
+/*!
+    Cutting-plane method for solving convex discrete optimization problem
+    input
+             oracle        perform assessment on x0
+             S(xc)         Search space containing x*
+             t             best-so-far optimal sol'n
+             max_it        maximum number of iterations
+             tol           error tolerance
+    output
+             x             solution vector
+             niter          number of iterations performed
+**/
+// #include <boost/numeric/ublas/symmetric.hpp>
+// namespace bnu = boost::numeric::ublas;
+// #include <xtensor-blas/xlinalg.hpp>
+// #include <xtensor/xarray.hpp>
+
+/*!
+ * @brief Cutting-plane method for solving convex discrete optimization problem
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega perform assessment on x0
+ * @param[in,out] S     search Space containing x*
+ * @param[in,out] t     best-so-far optimal sol'n
+ * @param[in] options   maximum iteration and error tolerance etc.
+ * @return Information of Cutting-plane method
+ */
+template <typename Oracle, typename Space, typename opt_type>
+auto cutting_plane_q(
+    Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
+{
+    const auto t_orig = t;
+    decltype(S.xc()) x_best;
+    auto status = CUTStatus::nosoln; // note!!!
+
+    auto niter = 0U;
+    while (++niter < options.max_it)
+    {
+        auto retry = (status == CUTStatus::noeffect);
+        const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
+        if (shrunk)
+        { // best t obtained
+            // t = t1;
+            x_best = x0;
+        }
+        const auto [cutstatus, tsq] = S.update(cut);
+        status = cutstatus; // a cut without effect makes a retry
+        if (cutstatus == CUTStatus::noeffect)
+        {
+            if (!more_alt)
+            {
+                break; // no more alternative cut
+            }
+        }
+        if (cutstatus == CUTStatus::nosoln)
+        {
+            status = cutstatus;
+            break;
+        }
+        if (tsq < options.tol)
+        {
+            status = CUTStatus::smallenough;
+            break;
+        }
+    }
+    return std::make_tuple(
+        std::move(x_best), CInfo {t != t_orig, niter, status});
+} // END
+
+/*!
+ * @brief
+ *
+ * @tparam Oracle
+ * @tparam Space
+ * @param[in,out] Omega    perform assessment on x0
+ * @param[in,out] I        interval containing x*
+ * @param[in]     options  maximum iteration and error tolerance etc.
+ * @return CInfo
+ */
+template <typename Oracle, typename Space>
+auto bsearch(Oracle&& Omega, Space&& I, const Options& options = Options())
+    -> CInfo
+{
+    // assume monotone
+    // auto& [lower, upper] = I;
+    auto& lower = I.first;
+    auto& upper = I.second;
+    assert(lower <= upper);
+    const auto u_orig = upper;
+    auto niter = 0U;
+    auto status = CUTStatus::success;
+
+    for (; niter != options.max_it; ++niter)
+    {
+        auto tau = algo::half_nonnegative(upper - lower);
+        if (tau < options.tol)
+        {
+            status = CUTStatus::smallenough;
+            break;
+        }
+
+        auto t = lower; // l may be `int` or `Fraction`
+        t += tau;
+        if (Omega(t))
+        { // feasible sol'n obtained
+            upper = t;
+        }
+        else
+        {
+            lower = t;
+        }
+    }
+    return {upper != u_orig, niter + 1, status};
+}
+
+/*!
+ * @brief
+ *
+ * @tparam Oracle
+ * @tparam Space
+ */
+template <typename Oracle, typename Space> //
+class bsearch_adaptor
+{
+  private:
+    Oracle& _P;
+    Space& _S;
+    const Options _options;
+
+  public:
+    /*!
+     * @brief Construct a new bsearch adaptor object
+     *
+     * @param[in,out] P perform assessment on x0
+     * @param[in,out] S search Space containing x*
+     */
+    bsearch_adaptor(Oracle& P, Space& S)
+        : bsearch_adaptor {P, S, Options()}
+    {
+    }
+
+    /*!
+     * @brief Construct a new bsearch adaptor object
+     *
+     * @param[in,out] P perform assessment on x0
+     * @param[in,out] S search Space containing x*
+     * @param[in] options maximum iteration and error tolerance etc.
+     */
+    bsearch_adaptor(Oracle& P, Space& S, const Options& options)
+        : _P {P}
+        , _S {S}
+        , _options {options}
+    {
+    }
+
+    /*!
+     * @brief get best x
+     *
+     * @return auto
+     */
+    [[nodiscard]] auto x_best() const
+    {
+        return this->_S.xc();
+    }
+
+    /*!
+     * @brief
+     *
+     * @param[in] t the best-so-far optimal value
+     * @return bool
+     */
+    template <typename opt_type>
+    auto operator()(const opt_type& t) -> bool
+    {
+        Space S = this->_S.copy();
+        this->_P.update(t);
+        const auto ell_info = cutting_plane_feas(this->_P, S, this->_options);
+        if (ell_info.feasible)
+        {
+            this->_S.set_xc(S.xc());
+        }
+        return ell_info.feasible;
+    }
+};
-- 
2.43.0


From 701b40acdf31f1943b4f157af06a335dfbf27012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 14/18] fix: get_name throws after set_name

---
 lib/include/xnetwork/classes/graph.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 500f1f0..cc2e29d 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -4,6 +4,7 @@
 #include <boost/utility/string_view.hpp>
 #include <cassert>
 #include <py2cpp/py2cpp.hpp>
+#include <string>
 #include <type_traits>
 #include <vector>
 #include <xnetwork/classes/coreviews.hpp> // import AtlasView, AdjacencyView
@@ -334,7 +335,7 @@ class Graph : public object
     }
 
     /// @property
-    auto get_name()
+    auto get_name() -> const char*
     {
         /*! String identifier of the graph.
 
@@ -346,13 +347,18 @@ class Graph : public object
         {
             return "";
         }
-        return boost::any_cast<const char*>(this->graph["name"]);
+        auto& name = this->graph["name"];
+        if (const auto* s = boost::any_cast<std::string>(&name))
+        {
+            return s->c_str();
+        }
+        return boost::any_cast<const char*>(name);
     }
 
     // @name.setter
     auto set_name(boost::string_view s)
     {
-        this->graph["name"] = boost::any(s);
+        this->graph["name"] = boost::any(std::string(s.begin(), s.end()));
     }
 
     /*! Iterate over the nodes. Use: "for (auto&& n : G)".
-- 
2.43.0


From 3efbed9fd3f9adb669c84e4f378ff4cd68f3aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 15/18] fix: clear leaves the nodes and the edge count

---
 lib/include/xnetwork/classes/digraphs.hpp | 3 ++-
 lib/include/xnetwork/classes/graph.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ecaa331..4c92a28 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -546,7 +546,8 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         this->_succ.clear();
         // this->_pred.clear()
-        // this->_node.clear();
+        this->_node = nodeview_t {};
+        this->_num_of_edges = 0;
         this->graph.clear();
     }
 
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index cc2e29d..20b0db3 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -842,7 +842,8 @@ class Graph : public object
 
          */
         this->_adj.clear();
-        // this->_node.clear();
+        this->_node = nodeview_t {};
+        this->_num_of_edges = 0;
         this->graph.clear();
     }
 
-- 
2.43.0


From dbe7e3c344f12186e66784a060967e90873b7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 16/18] fix: draw the noise of a sample once, so that the
 sample covariance is symmetric

---
 lib/src/lsq_corr_ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..2c654e8 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -70,7 +70,7 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     for (auto k = 0U; k != N; ++k)
     {
         auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        const Arr y = dot(A, x) + tau * xt::random::randn<double>({n});
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From c1cde362cb2f840f7edf4ca22a0edb852c5e15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 17/18] fix: gcd and lcm of 64-bit integers were cut to int by
 abs(int)

---
 lib/include/py2cpp/fractions.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index d228cdd..a198c23 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -13,6 +13,19 @@
 namespace fun
 {
 
+/*!
+ * @brief Absolute value (abs(int) alone may be visible here)
+ *
+ * @tparam Mn
+ * @param[in] _a
+ * @return Mn
+ */
+template <typename Mn>
+constexpr auto abs(const Mn& _a) -> Mn
+{
+    return _a < Mn(0) ? -_a : _a;
+}
+
 /*!
  * @brief Greatest common divider
  *
-- 
2.43.0


From f1ab73182ba3848c2c791b2bdd9642069612c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 18/18] fix: CSD of a magnitude just above 2/3 of a power of
 two had adjacent non-zero digits

---
 lib/src/csd.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index f0fe915..5f2605c 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -23,6 +23,10 @@ auto to_csd(double num, int places = 0) noexcept -> string
     }
     auto absnum = fabs(num);
     auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
+    if (absnum > pow(2., n + 1) / 3.)
+    {
+        ++n; // the logarithm was rounded down
+    }
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
@@ -109,6 +113,10 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     }
     auto an = fabs(num);
     auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
+    if (an > pow(2., n + 1) / 3.)
+    {
+        ++n; // the logarithm was rounded down
+    }
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     if (nnz == 0)
-- 
2.43.0


From 54af5e7ffce288a2e56f783286f71cb1967c2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 01/22] fix: cutting_plane_q asks for an alternative cut after
 an ineffective one

---
 lib/include/ellcpp/cutting_plane.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..a2f4aa1 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -141,11 +141,11 @@ auto cutting_plane_q(
     const auto t_orig = t;
     decltype(S.xc()) x_best;
     auto status = CUTStatus::nosoln; // note!!!
+    auto retry = false;
 
     auto niter = 0U;
     while (++niter != options.max_it)
     {
-        auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
         { // best t obtained
@@ -153,7 +153,8 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus == CUTStatus::noeffect)
+        retry = (cutstatus == CUTStatus::noeffect);
+        if (retry)
         {
             if (!more_alt)
             {
-- 
2.43.0


From 3c5deab2472346f12d1ff21370eac4e6b0c24c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 02/22] fix: a zero iteration limit no longer wraps around in
 the cutting-plane drivers

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index a2f4aa1..156c857 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -144,7 +144,7 @@ auto cutting_plane_q(
     auto retry = false;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
-- 
2.43.0


From 6b46522e485d07fab085376db0afa44ae880b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 03/22] fix: Fraction keeps its denominator positive so that
 comparisons stay right

---
 lib/include/py2cpp/fractions.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..7ad6505 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        this->normalize();
     }
 
     /*!
@@ -379,6 +380,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        this->normalize();
         return *this;
     }
 
-- 
2.43.0


From 702dbf6d162fac432d45300a873fa12532b6ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 04/22] fix: to_csdfixed stops when the number is exhausted
 before its digit budget

---
 lib/src/csd.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..20010ed 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -111,7 +111,11 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
     auto csd_str = string {an < 1. ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    if (nnz == 0)
+    {
+        num = 0.;
+    }
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
         if (n == 0)
         {
-- 
2.43.0


From e1443fdd11d29cac65c68c4e90543203a23c8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 05/22] fix: a cut that leaves the ellipsoid as it is counts as
 having no effect

---
 lib/src/ell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..57abf78 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -37,7 +37,7 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     }
 
     const auto b0b1n = b0 * (b1 / this->_tsq);
-    if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))
+    if (ELL_UNLIKELY(this->_nFloat * b0b1n <= -1.))
     {
         return CUTStatus::noeffect; // no effect
     }
@@ -96,7 +96,7 @@ CUTStatus ell::_calc_dc(const double& beta) noexcept
     }
 
     const auto gamma = tau + this->_nFloat * beta;
-    if (ELL_UNLIKELY(gamma < 0))
+    if (ELL_UNLIKELY(gamma <= 0.))
     {
         return CUTStatus::noeffect; // no effect
     }
-- 
2.43.0


From c28f6926c49d64d464f37993c2702da9f581d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 06/22] fix: parallel cuts symmetric about the centre no longer
 divide by zero

---
 lib/src/ell.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 57abf78..e3c4c62 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,11 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // (1 + b0b1n - xi) / (bsumn * bav) without dividing by bsum, which is 0
+    // when the two cuts are symmetric
+    const auto bdiffn = this->_halfN * bdiff;
+    this->_sigma = this->_c3 +
+        this->_c2 * (1. - bdiffn * (bdiffn / this->_tsq)) / (1. + b0b1n + xi);
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
-- 
2.43.0


From 8bd7d990febc23f23071baa1a9c495b41ac4fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 07/22] fix: qmi_oracle takes the gradient from the columns of
 F

---
 lib/src/qmi_oracle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..fa24059 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,7 +53,9 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
+        // columns of F, because _Fx holds F(x) transposed
+        const auto Fkp =
+            Arr {xt::transpose(COLUMN(this->_F[k], xt::range(start, stop)))};
         g(k) = -2 * dot(dot(v, Fkp), Av)();
     }
     return {{std::move(g), ep}};
-- 
2.43.0


From 441aface00c407f8e661a46bd6801e2978c2efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 08/22] fix: parallel cut with one side outside the ellipsoid

A far side that holds nowhere in the ellipsoid was answered by the near
side alone (no effect instead of no solution); a near side that holds
everywhere led to an ellipsoid larger than the smallest one, or to no
effect although the far side cuts.
---
 lib/src/ell.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index e3c4c62..b6c8be2 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -21,6 +21,10 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto t1n = 1. - b1sqn;
     if (t1n < 0. || !this->use_parallel_cut)
     {
+        if (b1 < 0. && this->use_parallel_cut)
+        {
+            return CUTStatus::nosoln; // the far side holds nowhere
+        }
         return this->_calc_dc(b0);
     }
 
@@ -36,14 +40,21 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
         return CUTStatus::success;
     }
 
+    // const auto t0 = this->_tsq - b0 * b0;
+    const auto t0n = 1. - b0 * (b0 / this->_tsq);
+    if (t0n < 0.) // the near side holds everywhere, only the far side cuts
+    {
+        const auto status = this->_calc_dc(-b1);
+        this->_rho = -this->_rho;
+        return status;
+    }
+
     const auto b0b1n = b0 * (b1 / this->_tsq);
     if (ELL_UNLIKELY(this->_nFloat * b0b1n <= -1.))
     {
         return CUTStatus::noeffect; // no effect
     }
 
-    // const auto t0 = this->_tsq - b0 * b0;
-    const auto t0n = 1. - b0 * (b0 / this->_tsq);
     // const auto t1 = this->_tsq - b1sq;
     const auto bsum = b0 + b1;
     const auto bsumn = bsum / this->_tsq;
-- 
2.43.0


From c9cb9de5a53807fe2c39de492bdc9559d41a3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 09/22] fix: a cut that the whole interval satisfies counts as
 having no effect in ell1d

---
 lib/src/ell1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ell1d.cpp b/lib/src/ell1d.cpp
index f119b7f..fd8510f 100644
--- a/lib/src/ell1d.cpp
+++ b/lib/src/ell1d.cpp
@@ -29,7 +29,7 @@ auto ell1d::update(const std::tuple<double, double>& cut) noexcept
     {
         return {CUTStatus::nosoln, tsq}; // no sol'n
     }
-    if (ELL_UNLIKELY(beta < -tau))
+    if (ELL_UNLIKELY(beta <= -tau))
     {
         return {CUTStatus::noeffect, tsq}; // no effect
     }
-- 
2.43.0


From f28fbc656a80f819e0d927f80a09293c503a1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 10/22] fix: rounding no longer makes cycles of zero weight
 look negative

---
 lib/include/netoptim/neg_cycle.hpp | 31 +++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/include/netoptim/neg_cycle.hpp b/lib/include/netoptim/neg_cycle.hpp
index 0098769..7d3c5bb 100644
--- a/lib/include/netoptim/neg_cycle.hpp
+++ b/lib/include/netoptim/neg_cycle.hpp
@@ -5,7 +5,10 @@
 Negative cycle detection for weighed graphs.
 **/
 #include <cassert>
+#include <cmath>
+#include <limits>
 #include <py2cpp/py2cpp.hpp>
+#include <type_traits>
 #include <vector>
 
 /*!
@@ -114,6 +117,32 @@ class negCycleFinder
         return this->_G.null_vertex();
     }
 
+    /*!
+     * @brief Is an improvement of a potential no more than rounding error?
+     *
+     * In floating-point arithmetic a cycle of zero weight must not be
+     * relaxed again and again, one unit in the last place at a time.
+     *
+     * @param[in] diff the improvement
+     * @param[in] d the new potential
+     * @param[in] wt the weight of the edge
+     * @return true
+     * @return false
+     */
+    template <typename T, typename W>
+    static auto _negligible(const T& diff, const T& d, const W& wt) -> bool
+    {
+        if constexpr (std::is_floating_point<T>::value)
+        {
+            return diff <= 16 * std::numeric_limits<T>::epsilon() *
+                (std::abs(d) + std::abs(T(wt)));
+        }
+        else
+        {
+            return false;
+        }
+    }
+
     /*!
      * @brief Perform one relaxation
      *
@@ -136,7 +165,7 @@ class negCycleFinder
             const auto wt = get_weight(e);
             const auto d = dist[u] + wt;
 
-            if (dist[v] > d)
+            if (dist[v] > d && !_negligible(dist[v] - d, d, wt))
             {
                 this->_pred[v] = u;
                 this->_edge[v] = e; // ???
-- 
2.43.0


From 0f2f82cd5600942eb6e5327a3b278336100d7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 11/22] fix: Fraction of a wide integer no longer narrows it to
 int to reduce it

---
 lib/include/py2cpp/fractions.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index 7ad6505..790684a 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -13,6 +13,19 @@
 namespace fun
 {
 
+/*!
+ * @brief Absolute value (an unqualified abs() may narrow to int)
+ *
+ * @tparam Mn
+ * @param[in] a
+ * @return Mn
+ */
+template <typename Mn>
+constexpr auto absolute(const Mn& a) -> Mn
+{
+    return a < Mn(0) ? Mn(-a) : a;
+}
+
 /*!
  * @brief Greatest common divider
  *
@@ -24,7 +37,7 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
-    return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
+    return _m == 0 ? absolute(_n) : _n == 0 ? absolute(_m) : gcd(_n, _m % _n);
 }
 
 /*!
@@ -38,7 +51,7 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
-    return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
+    return (_m != 0 && _n != 0) ? (absolute(_m) / gcd(_m, _n)) * absolute(_n) : 0;
 }
 
 template <typename Z>
-- 
2.43.0


From 33f6c53424b97a5820742352d15211d1e85eb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 12/22] fix: a thin parallel cut through the centre keeps the
 shape positive definite

---
 lib/src/ell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index b6c8be2..5fee06f 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -82,7 +82,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // (1 - xi) / b1sqn without the cancellation, which ruins a thin slab
+    this->_sigma = this->_c3 +
+        this->_c2 * (1. - this->_halfN * temp) / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 0511950e546cf7f762fa09bf2769afcccf7ce828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 13/22] fix: to_csd and to_csdfixed keep the canonical form
 above two thirds of a power of two

---
 lib/src/csd.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 20010ed..5aef3c5 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -23,8 +23,13 @@ auto to_csd(double num, int places = 0) noexcept -> string
     }
     auto absnum = fabs(num);
     auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
     auto limit = pow(2., n) / 3.;
+    if (absnum > 2. * limit) // or the first two digits would both be used
+    {
+        n += 1;
+        limit *= 2.;
+    }
+    auto csd_str = string {n == 0 ? "0" : ""};
     while (n > -places)
     {
         if (n == 0)
@@ -109,8 +114,13 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     }
     auto an = fabs(num);
     auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
     auto limit = pow(2., n) / 3.;
+    if (an > 2. * limit) // or the first two digits would both be used
+    {
+        n += 1;
+        limit *= 2.;
+    }
+    auto csd_str = string {n == 0 ? "0" : ""};
     if (nnz == 0)
     {
         num = 0.;
-- 
2.43.0


From b5b92cea914799596dc20c8e457f113cf8b6ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 14/22] fix: to_decimal does not count ignored characters as
 binary places

---
 lib/src/csd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 5aef3c5..09f00bd 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -87,13 +87,13 @@ auto to_decimal(std::string_view csd_str) noexcept -> double
                 loc = i + 1;
                 break;
             default:
-                break; // ignore
+                continue; // ignore, it takes no place either
         }
         ++i;
     }
     if (loc != 0)
     {
-        num /= std::pow(2, csd_str.size() - loc);
+        num /= std::pow(2, i - loc);
     }
     return num;
 }
-- 
2.43.0


From 1ef290cea6a82d84a3ba3b71a158a907264102da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 15/22] fix: a moved DiGraphS refers to its own successors

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..e78c0b8 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    DiGraphS(DiGraphS&& other) noexcept
+        : _Base {std::move(other)}
+        , _succ {_Base::_adj} // of this graph, not of the other
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From 2953de8bdaf08197a3826a0fbe63c25c7393f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 16/22] fix: clearing a graph keeps a place for the neighbors
 of each node and resets the edge count

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++++-
 lib/include/xnetwork/classes/graph.hpp    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index e78c0b8..42f2863 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -543,7 +543,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     */
     auto clear()
     {
-        this->_succ.clear();
+        for (auto& nbrs : this->_succ)
+        {
+            nbrs.clear(); // the nodes stay
+        }
+        this->_num_of_edges = 0;
         // this->_pred.clear()
         // this->_node.clear();
         this->graph.clear();
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..62781ef 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -835,7 +835,11 @@ class Graph : public object
         [];
 
          */
-        this->_adj.clear();
+        for (auto& nbrs : this->_adj)
+        {
+            nbrs.clear(); // the nodes stay
+        }
+        this->_num_of_edges = 0;
         // this->_node.clear();
         this->graph.clear();
     }
-- 
2.43.0


From 53d73cdac58b7ed25f1d78f0624ceea631deaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 17/22] fix: an edge that is already there is not counted again

---
 lib/include/xnetwork/classes/digraphs.hpp | 15 ++++++++++++---
 lib/include/xnetwork/classes/graph.hpp    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 42f2863..c9daf7e 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -349,9 +349,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -367,9 +370,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -377,8 +383,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 62781ef..3ebf9a0 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,12 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -643,9 +646,12 @@ class Graph : public object
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -653,9 +659,12 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From 197ed95612e7057527e17b0c1dd468663e66275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 18/22] fix: draw each sample of create_2d_isotropic once, so
 that the matrix is symmetric

---
 lib/src/lsq_corr_ell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..404d3ee 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -69,8 +69,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     auto Y = zeros({n, n});
     for (auto k = 0U; k != N; ++k)
     {
-        auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        const auto x = Arr {var * xt::random::randn<double>({n})};
+        const auto y = Arr {dot(A, x) + tau * xt::random::randn<double>({n})};
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 5fe471a2f0ae9f53d9f7496f42c700ffe446da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 19/22] fix: the log-scale gradients of a posynomial compile (a
 monomial has no gradient(), it is lse_gradient())

---
 lib/include/ellip/posynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 63cb9e6..2ecf8ab 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -164,7 +164,7 @@ class posynomial
 
         if (N == 1)
         { // monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
@@ -215,7 +215,7 @@ class posynomial
 
         if (N == 1)
         { // i.e. monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
-- 
2.43.0


From 4a36b72c1334da16c2476d8290e5a88a8f4fe3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 20/22] fix: a posynomial can be added to itself and multiplied
 or divided by one of its own terms

---
 lib/include/ellip/posynomial.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 2ecf8ab..4432d87 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -73,7 +73,8 @@ class posynomial
     /** Add and assign */
     _Self& operator+=(const _Self& P)
     {
-        for (auto i = 0; i != P._M.size(); ++i)
+        const size_t N = P._M.size(); // P may be *this
+        for (auto i = 0; i != N; ++i)
             _M.push_back(P._M[i]);
         return *this;
     }
@@ -81,16 +82,18 @@ class posynomial
     /** Multiply and assign */
     _Self& operator*=(const monomial<_Tp>& m)
     {
+        const monomial<_Tp> d = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] *= m;
+            _M[i] *= d;
         return *this;
     }
 
     /** Divide and assign */
     _Self& operator/=(const monomial<_Tp>& m)
     {
+        const monomial<_Tp> d = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] /= m;
+            _M[i] /= d;
         return *this;
     }
 
-- 
2.43.0


From f9eb3b158620d7098e873fe9783993e5963278d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 21/22] fix: ellipsoid.hpp compiles again (ellipsoid_dc
 referred to a name that was commented out and to the result of a void update)

---
 lib/include/ellip/ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/ellipsoid.hpp b/lib/include/ellip/ellipsoid.hpp
index dd6d237..c08985d 100644
--- a/lib/include/ellip/ellipsoid.hpp
+++ b/lib/include/ellip/ellipsoid.hpp
@@ -184,10 +184,10 @@ STATUS ellipsoid_dc(Enclosing& E, Oracle& P, Vec& best_x, double& best_f,
             if (f < best_f)
             {
                 best_f = f;
-                best_x = x;
+                best_x = info._x;
             }
             // status = E.update(g, beta);
-            status = E.update(g);
+            status = E.update(g, 0.);
         }
         else
         {
-- 
2.43.0


From a5a9c6b4841937a1b6e2f64d183905c5798a9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 22/22] fix: a shallow cut (beta below -tau/n) made the old
 ellipsoid lose points that satisfy it; it has no effect

---
 lib/include/ellip/ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/ellip/ellipsoid.cpp b/lib/include/ellip/ellipsoid.cpp
index cc9e8b2..000eb76 100644
--- a/lib/include/ellip/ellipsoid.cpp
+++ b/lib/include/ellip/ellipsoid.cpp
@@ -52,7 +52,7 @@ CUTSTATUS ellipsoid::update(const Vec& g, double beta)
     double tau = sqrt(gamma);
     if (beta > tau)
         return NOSOLUTION;
-    if (beta < -tau)
+    if (_n * beta <= -tau) // no smaller ellipsoid contains what is kept
         return NOEFFECT;
 
     double rho = (tau + _n * beta) / (_n + 1);
-- 
2.43.0


From cbcc4a5e8a170ca35aa65d25ab4693ffb4450fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 01/41] fix: last Frobenius coefficient of the MNT6-298 sextic
 extension

---
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..dbca152 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 552eb0651104a2484503170e84d5b1e6c688ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 02/41] fix: Frobenius coefficients of the BN128 quadratic
 extension

---
 .../algebra/fields/detail/extension_params/bn128/fp2.hpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..31489e1 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -81,7 +81,9 @@ namespace nil {
                         /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
                            {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
-- 
2.43.0


From 887e7deb24e6a6f6ac1b9842c0fc13b5d0ea80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 03/41] fix: edwards cubic extension lacks (q-1)/2, so its
 quadratic residuosity test used the base field's

---
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index b36d267..dfeff10 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -72,7 +72,7 @@ namespace nil {
                         constexpr static const std::array<integral_type, 3> nqr_to_t = {
                             0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
-                        constexpr static const extended_integral_type group_order =
+                        constexpr static const extended_integral_type group_order_minus_one_half =
                             0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
 
                         /*constexpr static const std::array<non_residue_type, 3> Frobenius_coeffs_c1 =
@@ -121,7 +121,7 @@ namespace nil {
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::extended_integral_type const
-                        fp3_extension_params<edwards_base_field<Version>>::group_order;
+                        fp3_extension_params<edwards_base_field<Version>>::group_order_minus_one_half;
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::integral_type const
-- 
2.43.0


From 699e6b9991dd1db539cd4695d080b6aa0dd791f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 04/41] fix: determinant accumulates the pivots instead of
 their reciprocals

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 9aec7a014f0595272aa551e8c25cc7ff9b4c927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 05/41] fix: a zero entry is negligible even when the tolerance
 is zero (rank and rref of the zero matrix)

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..acb1dd8 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 60d5a7f49968374687a585976913b2365142e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 06/41] fix: rref with an explicit tolerance passes it to the
 elimination

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index acb1dd8..ec81690 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From aef0bc723547a91ac8c40c6a156dd31e6c0a2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 07/41] fix: swapcol visits every row of a non-square matrix

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From fe270c1e6484be6dd93cb0fd3b2fe57b3bae2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 08/41] fix: the square root of zero terminates

---
 include/nil/crypto3/algebra/scalar/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..6a84e5e 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -47,6 +47,8 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                if (x == 0)
+                    return x;
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
-- 
2.43.0


From 4cf0012cb596998aa770fa4b80efec20937b8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 09/41] fix: nthroot terminates for zero and when the iteration
 alternates between two values

---
 include/nil/crypto3/algebra/scalar/math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 6a84e5e..09421bd 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -120,9 +120,14 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
+                if (x == 0)
+                    return x;
+                double older = -1;
                 double prev = -1;
                 double est = 1;
-                while (prev != est) {
+                // the iteration may end in a cycle of two neighbouring values
+                while (prev != est && older != est) {
+                    older = prev;
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-- 
2.43.0


From c25b04a9b3b5951c6f7afef064bbf26ca39fac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 10/41] fix: exponentiate with the smallest int does not
 overflow when negating the exponent

---
 include/nil/crypto3/algebra/scalar/math.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 09421bd..edc5e62 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -93,17 +93,19 @@ namespace nil {
             constexpr double exponentiate(double x, int n) {
                 if (n == 0)
                     return 1;
-                if (n < 0) {
+                // the negation of the smallest int is not an int
+                long long k = n;
+                if (k < 0) {
                     x = 1. / x;
-                    n = -n;
+                    k = -k;
                 }
                 double y = 1.;
-                while (n > 1) {
-                    if (n % 2 == 0) {
-                        n = n / 2.;
+                while (k > 1) {
+                    if (k % 2 == 0) {
+                        k = k / 2.;
                     } else {
                         y *= x;
-                        n = (n - 1.) / 2.;
+                        k = (k - 1.) / 2.;
                     }
                     x *= x;
                 }
-- 
2.43.0


From db22c24634720c9518f188c398107130dac38a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 11/41] fix: mixed_add of equal points in jacobian coordinates
 doubles

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..2362408 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..5955f04 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..21d5863 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From e7048149619e413c96ca14af93a627f7d40d31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 12/41] fix: negation of the point at infinity in affine short
 Weierstrass coordinates

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..dc5a9c5 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,10 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return zero();
+                            }
+
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From 8a201994a74eb6392d2050f83a48c6ba88a7be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 13/41] fix: doubling of a point of order 2 in affine short
 Weierstrass coordinates

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index dc5a9c5..67bc99b 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -242,6 +242,12 @@ namespace nil {
                         constexpr void double_inplace() {
 
                             if (!this->is_zero()) {
+                                // a point of order 2
+                                if (Y.is_zero()) {
+                                    *this = zero();
+                                    return;
+                                }
+
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From bbc5a99bbe113be8105c325717a1a9f77bd91066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 14/41] fix: mixed_add of equal points in extended twisted
 Edwards coordinates doubles

---
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..128139d 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,6 +302,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 69becd42b263fd94079a2877edcb1abc490478ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 15/41] fix: negation of the point at infinity in Montgomery
 affine coordinates

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..2a02089 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,10 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return curve_element();
+                            }
+
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From 3b09317a934e9705aec184543af5b8653c3ee0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 16/41] fix: mixed_add to the neutral element in inverted
 Edwards coordinates

---
 .../algebra/curves/detail/forms/edwards/inverted/element_g1.hpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
index c40d572..435213f 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
@@ -276,6 +276,7 @@ namespace nil {
                         constexpr void mixed_add(const curve_element &other) {
                             // handle special cases having to do with O
                             if (this->is_zero()) {
+                                *this = other;
                                 return;
                             }
                             if (other.is_zero()) {
-- 
2.43.0


From 86fda29583011a64e79a6ef871a06020d786cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 17/41] fix: to_affine of jacobian_with_a4_minus_3 divides Y by
 the cube of Z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 21d5863..88e1892 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From 15136c5c5fd2ca96abbced64d1ea44ada3123507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 18/41] fix: curve membership of projective_with_a4_minus_3
 uses a = -3

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..9f8945a 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - (Z2.doubled() + Z2)));
                             }
                         }
 
-- 
2.43.0


From b63110d3d8e05f45a1bc63f7ae8d5f235e3ef93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 19/41] fix: get_exp_window_size reads outside its table when
 there are fewer scalars than its first entry

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..1d23cd9 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,8 +126,7 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
-                     --i) {
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i-- > 0;) {
                     if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
                         num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
                         window = i + 1;
-- 
2.43.0


From 89a94245b0a03452350bccbc34ffc7301d195978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 20/41] fix: multiexp_method_BDLO12 takes the logarithm of zero
 for an empty input

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..e1b1504 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From d42692880f54dec274ab95299d4c2f1b8635eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 21/41] fix: multiexp_method_bos_coster takes the most
 significant bit of zero when every scalar is zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index e1b1504..6cb1dea 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -273,6 +273,11 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            if (a.r.is_zero()) {
+                                // the largest scalar is zero: nothing is left
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From 500d012afc40d10cf269c1c56f03fc5acbd838a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 22/41] Loop contracts of the multi-exponentiation policies
 (guarded)

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 6cb1dea..3a9298a 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -137,6 +137,10 @@ namespace nil {
                         bool result_nonzero = false;
 
                         for (std::size_t k = num_groups - 1; k <= num_groups; k--) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                            // result is the sum of (exponents[i] >> ((k + 1) * c)) * bases[i]
+                            CRYPTO3_ALGEBRA_LOOP_CONTRACT(bdlo12_windows, k, c, result, result_nonzero)
+#endif
                             if (result_nonzero) {
                                 for (std::size_t i = 0; i < c; i++) {
                                     result.double_inplace();
@@ -269,6 +273,11 @@ namespace nil {
                         base_value_type opt_result = base_value_type::zero();
 
                         while (true) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                            // opt_q is a max-heap over a permutation of the indices of g;
+                            // opt_result plus the sum of opt_q[i].r * g[opt_q[i].idx] is the result
+                            CRYPTO3_ALGEBRA_LOOP_CONTRACT(bos_coster_heap, opt_q, g, opt_result)
+#endif
                             detail::ordered_exponent<non_fixed_precision_number_type> &a = opt_q[0];
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
-- 
2.43.0


From b80f01c29ea8d67af98c7091d2a2cd595e0bdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 23/41] Loop contracts of naive multi-exponentiation and
 windowed exponentiation (guarded)

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 4 ++++
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 1d23cd9..58b96e9 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -184,6 +184,10 @@ namespace nil {
                 typename GroupType::value_type res = powers_of_g[0][0];
 
                 for (std::size_t outer = 0; outer < outerc; ++outer) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // res is (pow mod 2^(outer * window)) * g
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(windowed_exp_windows, outer, res)
+#endif
                     std::size_t inner = 0;
                     for (std::size_t i = 0; i < window; ++i) {
                         if (boost::multiprecision::bit_test(pow_val, outer * window + i)) {
diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 3a9298a..22c717e 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -78,6 +78,10 @@ namespace nil {
                         InputFieldIterator scalar_it;
 
                         for (vec_it = vec_start, scalar_it = scalar_start; vec_it != vec_end; ++vec_it, ++scalar_it) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                            // result is the sum of the products before vec_it, which is as far as scalar_it
+                            CRYPTO3_ALGEBRA_LOOP_CONTRACT(naive_sum, vec_it, scalar_it, result)
+#endif
                             result = result + (*scalar_it) * (*vec_it);
                         }
 
-- 
2.43.0


From 83b22533db8e6c52f0a6f069386471b047952321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:44 +0000
Subject: [PATCH 24/41] fix: the square root of zero in Fp2 and Fp3 does not
 terminate

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 3 ++-
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..ba96687 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -196,7 +196,8 @@ namespace nil {
                         }
 
                         constexpr element_fp2 sqrt() const {
-
+                            if (this->is_zero())
+                                return zero();
                             element_fp2 one = this->one();
 
                             std::size_t v = policy_type::s;
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..ecf1bad 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,8 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 0f9ac267763d07590fea365aa0debf3672b86774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:44 +0000
Subject: [PATCH 25/41] Loop contracts of Tonelli-Shanks (guarded)

---
 .../crypto3/algebra/fields/detail/element/fp2.hpp    | 12 ++++++++++++
 .../crypto3/algebra/fields/detail/element/fp3.hpp    | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index ba96687..fd13c0a 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -210,9 +210,17 @@ namespace nil {
                             // (does not terminate if not a square!)
 
                             while (b != one) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                // x * x = (*this) * b, z has order 2^v, b has order less than 2^v
+                                CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks, x, b, z, v)
+#endif
                                 std::size_t m = 0;
                                 element_fp2 b2m = b;
                                 while (b2m != one) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                    // b2m = b^(2^m)
+                                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks_order, b2m, m)
+#endif
                                     /* invariant: b2m = b^(2^m) after entering this loop */
                                     b2m = b2m.squared();
                                     m += 1;
@@ -221,6 +229,10 @@ namespace nil {
                                 int j = v - m - 1;
                                 w = z;
                                 while (j > 0) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                    // w = z^(2^(v - m - 1 - j))
+                                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks_root, w, j)
+#endif
                                     w = w.squared();
                                     --j;
                                 }    // w = z^2^(v-m-1)
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index ecf1bad..1e90184 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -174,9 +174,17 @@ namespace nil {
                             // (does not terminate if not a square!)
 
                             while (!b.is_one()) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                // x * x = (*this) * b, z has order 2^v, b has order less than 2^v
+                                CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks, x, b, z, v)
+#endif
                                 std::size_t m = 0;
                                 element_fp3 b2m = b;
                                 while (!b2m.is_one()) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                    // b2m = b^(2^m)
+                                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks_order, b2m, m)
+#endif
                                     /* invariant: b2m = b^(2^m) after entering this loop */
                                     b2m = b2m.squared();
                                     m += 1;
@@ -185,6 +193,10 @@ namespace nil {
                                 int j = v - m - 1;
                                 w = z;
                                 while (j > 0) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                                    // w = z^(2^(v - m - 1 - j))
+                                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(tonelli_shanks_root, w, j)
+#endif
                                     w = w.squared();
                                     --j;
                                 }    // w = z^2^(v-m-1)
-- 
2.43.0


From 41790c6b923bdd92672632209f9a3d360b8d352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:56 +0000
Subject: [PATCH 26/41] fix: field_element_to_bytes leaves the octets above the
 most significant one as they were

---
 include/nil/crypto3/algebra/marshalling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..d3c49fe 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes the significant octets only
+                    std::fill(out_first, out_last, chunk_type(0));
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From fb7c91a2d23931656f760c0cdd714b6f40b29bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 27/41] fix: secp_r1_scalar_field<160> has elements of the
 undefined field secp_r1_scalar_field<161>

---
 .../nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
index 8ca3869..2fcb92f 100644
--- a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
@@ -68,7 +68,7 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<secp_r1_scalar_field<161>>> value_type;
+                    typedef typename detail::element_fp<params<secp_r1_scalar_field<160>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
-- 
2.43.0


From 4f05365989336a8aaf7ea163bc71948a14c0f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 28/41] fix: encodings of the point at infinity with non-zero
 octets are accepted

---
 .../crypto3/algebra/curves/detail/marshalling.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..653c6fc 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -32,6 +32,7 @@
 
 #include <boost/concept/assert.hpp>
 
+#include <algorithm>
 #include <iterator>
 
 namespace nil {
@@ -197,7 +198,7 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(is_zero_octets(point_octets));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -225,7 +226,7 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(is_zero_octets(point_octets));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -246,7 +247,7 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(is_zero_octets(point_octets));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -277,7 +278,7 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(is_zero_octets(point_octets));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -303,6 +304,12 @@ namespace nil {
                 return result;
             }
 
+            template<typename PointOctetsRange>
+            static inline bool is_zero_octets(const PointOctetsRange &point_octets) {
+                return std::all_of(point_octets.begin(), point_octets.end(),
+                                   [](std::uint8_t octet) { return octet == 0; });
+            }
+
             static inline bool sign_gf_p(const g1_field_value_type &v) {
                 static const typename g1_field_value_type::integral_type half_p =
                     (g1_field_value_type::modulus - integral_type(1)) / integral_type(2);
-- 
2.43.0


From 07f0df43f2deef54ae03cabf054ecd413d1fc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 29/41] fix: point encodings with coordinates not below the
 modulus are accepted

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 653c6fc..6ee89f6 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -204,6 +204,7 @@ namespace nil {
 
                 integral_type x;
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -235,6 +236,7 @@ namespace nil {
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus && y < g1_field_value_type::modulus);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 BOOST_ASSERT(result.is_well_formed());
                 return result;
@@ -256,6 +258,7 @@ namespace nil {
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -297,6 +300,8 @@ namespace nil {
                                             false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_0 < g1_field_value_type::modulus && y_1 < g1_field_value_type::modulus);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-- 
2.43.0


From a8ce0aa1788aed41c2e40674aaa1e2fbe70cee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 30/41] fix: octets_to_g2_point copies the octets of a vector
 into an empty vector

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 6ee89f6..b4cd7f8 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -174,8 +174,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From 6e6c698c950a9c5b749e81cb483be96fd358a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:17 +0000
Subject: [PATCH 31/41] fix: exceptional inputs of the isogeny maps go to the
 generator instead of the point at infinity

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From 24a6651d3082515912c6b1ad9fc091b3b2bab011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 32/41] Loop contract of exponentiate (guarded)

---
 include/nil/crypto3/algebra/scalar/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index edc5e62..05912ee 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -101,6 +101,10 @@ namespace nil {
                 }
                 double y = 1.;
                 while (k > 1) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // y * x^k is the power asked for
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(square_and_multiply, x, y, k)
+#endif
                     if (k % 2 == 0) {
                         k = k / 2.;
                     } else {
-- 
2.43.0


From 3898f0de9b07bc1a4d0e00d06e4072208419271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:31 +0000
Subject: [PATCH 33/41] Loop contract of rotate (guarded)

---
 include/nil/crypto3/algebra/vector/utility.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/vector/utility.hpp b/include/nil/crypto3/algebra/vector/utility.hpp
index 6c1e5e9..281c38e 100644
--- a/include/nil/crypto3/algebra/vector/utility.hpp
+++ b/include/nil/crypto3/algebra/vector/utility.hpp
@@ -150,8 +150,13 @@ namespace nil {
             constexpr vector<T, N> rotate(vector<T, N> v, int n) {
                 vector<T, N> rotated = {};
                 // add N (the modulus) to n until it is positive
-                while (n < 0)
+                while (n < 0) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // n is congruent to the shift modulo N
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(rotation_shift, n)
+#endif
                     n += N;
+                }
                 for (std::size_t i = 0; i < N; ++i)
                     rotated[i] = v[(i + n) % N];
                 return rotated;
-- 
2.43.0


From f471856e2e1af4d8f6ad418b58e90401cd07eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:44 +0000
Subject: [PATCH 34/41] Loop contract of the Gauss-Jordan elimination (guarded)

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ec81690..1eccc53 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -195,6 +195,10 @@ namespace nil {
                 std::size_t rank = 0;
                 std::size_t i = 0, j = 0;
                 while (i < M && j < N) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // the first j columns are reduced and have i pivots; det is the determinant of the steps so far
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(gauss_jordan_step, m, i, j, rank, det)
+#endif
                     // Choose largest magnitude as pivot to avoid adding different magnitudes
                     for (std::size_t ip = i + 1; ip < M; ++ip) {
                         if (abs(m[ip][j]) > abs(m[i][j])) {
-- 
2.43.0


From acd3ce3b9eb0bc51f3a6474caaae18e6adb09e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 35/41] Loop contracts of the root iterations (guarded)

---
 include/nil/crypto3/algebra/scalar/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 05912ee..36e9e5f 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -52,6 +52,10 @@ namespace nil {
                 double prev = 0;
                 double est = (1 + x) / 2;
                 while (prev != est) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // est is positive
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(heron_iteration, x, est)
+#endif
                     prev = est;
                     est = (est + x / est) / 2;
                 }
@@ -133,6 +137,10 @@ namespace nil {
                 double est = 1;
                 // the iteration may end in a cycle of two neighbouring values
                 while (prev != est && older != est) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // est is positive and, after the first pass, one step after prev
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(newton_iteration, x, n, older, prev, est)
+#endif
                     older = prev;
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
-- 
2.43.0


From cdd9462815b4cec1681c640601f477c92f8f11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:04 +0000
Subject: [PATCH 36/41] Loop contracts of min_index and max_index (guarded)

---
 include/nil/crypto3/algebra/vector/math.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/vector/math.hpp b/include/nil/crypto3/algebra/vector/math.hpp
index 86827c8..4cfbf73 100644
--- a/include/nil/crypto3/algebra/vector/math.hpp
+++ b/include/nil/crypto3/algebra/vector/math.hpp
@@ -158,11 +158,16 @@ namespace nil {
             constexpr std::size_t min_index(const vector<T, N> &v) {
                 T min = v[0];
                 std::size_t index = 0;
-                for (std::size_t i = 0; i < vector<T, N>::size; ++i)
+                for (std::size_t i = 0; i < vector<T, N>::size; ++i) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // min is v[index], the first least of the elements before i
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(least_so_far, v, i, min, index)
+#endif
                     if (v[i] < min) {
                         index = i;
                         min = v[i];
                     }
+                }
                 return index;
             }
 
@@ -177,11 +182,16 @@ namespace nil {
             constexpr std::size_t max_index(const vector<T, N> &v) {
                 T max = v[0];
                 std::size_t index = 0;
-                for (std::size_t i = 0; i < vector<T, N>::size; ++i)
+                for (std::size_t i = 0; i < vector<T, N>::size; ++i) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // max is v[index], the first greatest of the elements before i
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(greatest_so_far, v, i, max, index)
+#endif
                     if (v[i] > max) {
                         index = i;
                         max = v[i];
                     }
+                }
                 return index;
             }
 
-- 
2.43.0


From 75a18acd4a8b573bacf74a1681fbc6bb69bd00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:37 +0000
Subject: [PATCH 37/41] fix: the pairing with the neutral element of the second
 group is zero instead of one

---
 include/nil/crypto3/algebra/algorithms/pair.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/pair.hpp b/include/nil/crypto3/algebra/algorithms/pair.hpp
index 2e11ff8..ba8ed38 100644
--- a/include/nil/crypto3/algebra/algorithms/pair.hpp
+++ b/include/nil/crypto3/algebra/algorithms/pair.hpp
@@ -81,6 +81,10 @@ namespace nil {
             typename PairingCurveType::gt_type::value_type
                 pair(const typename PairingCurveType::template g1_type<>::value_type &v1,
                      const typename PairingCurveType::template g2_type<>::value_type &v2) {
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
@@ -92,6 +96,9 @@ namespace nil {
             typename PairingCurveType::gt_type::value_type
                 pair_reduced(const typename PairingCurveType::template g1_type<>::value_type &v1,
                              const typename PairingCurveType::template g2_type<>::value_type &v2) {
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
 
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
-- 
2.43.0


From 3823a12ab0db8f5394c8bf6200d16d6ef41d33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:37 +0000
Subject: [PATCH 38/41] fix: strxor of iterator ranges returns nothing although
 its result type is the output iterator

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..e188ce8 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -46,6 +46,8 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From 229abd937e9c23da7d33f5cbc7b08d2c819b0cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:30 +0000
Subject: [PATCH 39/41] fix: random_element drew from 0 to the modulus
 inclusive, so that zero came up twice as often

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From bd705f1524a23cfe449e0eb14c847de0fc82e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:30 +0000
Subject: [PATCH 40/41] Loop contracts of strxor and the batch exponentiations
 (guarded)

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 8 ++++++++
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index e188ce8..6abb005 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -44,6 +44,10 @@ namespace nil {
                 BOOST_ASSERT(std::distance(first1, last1) == std::distance(first2, last2));
 
                 while (first1 != last1 && first2 != last2) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // the output before out is the exclusive or of the operands before first1 and first2
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(xor_prefix, first1, first2, out)
+#endif
                     *out++ = *first1++ ^ *first2++;
                 }
 
@@ -63,6 +67,10 @@ namespace nil {
                 auto in2_i = in2.begin();
                 auto out_i = out.begin();
                 while (in1_i != in1.end() && in2_i != in2.end()) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // the output before out_i is the exclusive or of the operands before in1_i and in2_i
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(xor_prefix, in1_i, in2_i, out_i)
+#endif
                     *out_i++ = *in1_i++ ^ *in2_i++;
                 }
             }
diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 58b96e9..622464d 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -211,6 +211,10 @@ namespace nil {
                 std::vector<typename GroupType::value_type> res(std::distance(v.begin(), v.end()), table[0][0]);
 
                 for (std::size_t i = 0; i < v.size(); ++i) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // the results before i are done
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(batch_prefix, i, res)
+#endif
                     res[i] = windowed_exp<GroupType, FieldType>(scalar_size, window, table, v[i]);
                 }
 
@@ -229,6 +233,10 @@ namespace nil {
                 std::vector<typename GroupType::value_type> res(std::distance(v.begin(), v.end()), table[0][0]);
 
                 for (std::size_t i = 0; i < v.size(); ++i) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // the results before i are done
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(batch_prefix, i, res)
+#endif
                     res[i] = windowed_exp<GroupType, FieldType>(scalar_size, window, table, coeff * v[i]);
                 }
 
-- 
2.43.0


From fe8dbe39b137e20924b8261428a5abc5d1572474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:39 +0000
Subject: [PATCH 41/41] Loop contracts of get_window_table, multiexp and
 multiexp_with_mixed_addition (guarded)

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 622464d..3af21c8 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -57,6 +57,10 @@ namespace nil {
                 base_value_type result = base_value_type::zero();
 
                 for (std::size_t i = 0; i < chunks_count; ++i) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // result is the sum of the products before the chunk i
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(chunk_sum, i, result)
+#endif
                     result =
                         result + MultiexpMethod::process(
                                      vec_start + i * one_chunk_size,
@@ -92,6 +96,10 @@ namespace nil {
                 base_value_type acc = base_value_type::zero();
 
                 for (; scalar_it != scalar_end; ++scalar_it, ++vec_it) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // acc and the terms in p and g make up the sum of the products before vec_it
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(mixed_addition, vec_it, scalar_it, acc, p, g)
+#endif
                     if (*scalar_it == one) {
 #ifdef USE_MIXED_ADDITION
                         acc = acc.mixed_add(*vec_it);
@@ -154,6 +162,10 @@ namespace nil {
                 typename GroupType::value_type gouter = g;
 
                 for (std::size_t outer = 0; outer < outerc; ++outer) {
+#ifdef CRYPTO3_ALGEBRA_LOOP_CONTRACT
+                    // gouter is 2^(outer * window) * g and the rows before outer are done
+                    CRYPTO3_ALGEBRA_LOOP_CONTRACT(window_table_rows, outer, gouter, powers_of_g)
+#endif
                     typename GroupType::value_type ginner = GroupType::value_type::zero();
                     std::size_t cur_in_window = outer == outerc - 1 ? last_in_window : in_window;
                     for (std::size_t inner = 0; inner < cur_in_window; ++inner) {
-- 
2.43.0


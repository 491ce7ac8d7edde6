From 9e42160f1cc8bca2355aa101951ea1a7d11b79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 01/24] fix: floor, ceil, trunc and round returned subnormal
 arguments unchanged

floor(-4.9e-324) and ceil(4.9e-324) are -1 and 1; only a zero is returned as is.
---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From 4bb5b4646ae50fda29f2895af1ec3cbeafe60024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 02/24] fix: gcd, lcm and binomial_coef did not compile for
 types narrower than int

Integer promotion made the recursive calls deduce conflicting types.
---
 include/gcem_incl/binomial_coef.hpp | 2 +-
 include/gcem_incl/gcd.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..afcbb35 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -34,7 +34,7 @@ noexcept
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
                 n == T(0) ? T(0) :
             // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                binomial_coef_recur<T>(n-1,k-1) + binomial_coef_recur<T>(n-1,k) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..eccec1b 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur<T>(b, a % b) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From c44bb94bf42d8e7b198c1e1d38ee83f51f2f89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 03/24] fix: lcm(0,0) divided by zero, and a negative argument
 was wrapped when the other is unsigned

Take absolute values before converting to the common type, as gcd does.
---
 include/gcem_incl/lcm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..2645706 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,7 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( a == T(0) || b == T(0) ? T(0) : abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
@@ -39,7 +39,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 5a90343a8dd8657d2e142d245502bcf60d18c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 04/24] fix: pow(base,n) with integral n was evaluated in the
 type of base, not the common type

pow(10,12L) overflowed int before being converted to long, and bases narrower
than int did not compile.
---
 include/gcem_incl/pow.hpp          | 2 +-
 include/gcem_incl/pow_integral.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..ad365ba 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur<T1>(base*base,val*base,exp_term/2) :
+                    pow_integral_compute_recur<T1>(base*base,val,exp_term/2)) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From ace48c741aa57e99985bc7fa067ac63ab627e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 05/24] fix: pow(base,n) ignored the base when n is the largest
 or smallest value of its type

pow(1.0,INT_MAX) was inf, pow(0.5,INT_MAX) was inf and pow(1.0,INT_MIN) was 0.
---
 include/gcem_incl/pow_integral.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index ad365ba..16a4ef8 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -83,11 +83,9 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
-            exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
+            // - exp_term would overflow
+            std::is_signed<T2>::value && exp_term == GCLIM<T2>::min() ? \
+                T1(1) / (base * pow_integral_compute(base, GCLIM<T2>::max())) :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From 8fa944b715ebbd54c16b0e3e2e405d0053f6391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 06/24] fix: pow(0.0,0.0) and pow(inf,0.0) were NaN instead of
 1

---
 include/gcem_incl/pow.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 701314c..895d85f 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -44,7 +44,9 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( base < T1(0) ? \
+    return( exp_term == T2(0) ? \
+                TC(1) :
+            base < T1(0) ? \
                 GCLIM<TC>::quiet_NaN() :
             //
             pow_dbl(static_cast<TC>(base),static_cast<TC>(exp_term)) );
-- 
2.43.0


From 2feea901cce00c8ea8fa9aac6c8b6891b8a375d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 07/24] fix: log of a negative integer was 0 instead of NaN

---
 include/gcem_incl/log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..789dce0 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,7 +158,7 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
+                x != T(1) ? \
                     log_check( static_cast<return_t<T>>(x) ) :
                     static_cast<return_t<T>>(0) :
             log_check( static_cast<return_t<T>>(x) ) );
-- 
2.43.0


From d85483d1cc1559cf47e333a5de893619c32fecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 08/24] fix: exp(x) was 0 for x >= 2^63, and inf just below the
 overflow threshold

The cast of floor(x) to long long was out of range for large x, and e^floor(x)
was converted to the result type before being multiplied by e^frac(x).
---
 include/gcem_incl/exp.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..5c1a13e 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
 }
 
 template<typename T>
@@ -103,6 +103,12 @@ noexcept
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
             //
+            // overflow and underflow; find_whole(x) would not fit its type for larger values
+            x > T(GCLIM<T>::max_exponent)*T(GCEM_LOG_2) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits - 1)*T(GCEM_LOG_2) ? \
+                T(0) :
+            //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
                 exp_split(x) );
-- 
2.43.0


From 78a74fe9795b5455033245bf80e3f4db7645a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 09/24] fix: sqrt(x) did not converge for small x

Newton's method only halves the iterate on each of its 100 steps, so that
sqrt(1e-100) was about 4e-31; scale small x by a power of 4 first.
---
 include/gcem_incl/sqrt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..f3aaa66 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -51,7 +51,9 @@ T
 sqrt_simplify(const T x, const T m_val)
 noexcept
 {
-    return( x > T(1e+08) ? \
+    return( x < T(1)/T(18446744073709551616.0L) ? \
+                sqrt_simplify(x * T(18446744073709551616.0L), m_val / T(4294967296.0L)) :
+            x > T(1e+08) ? \
                 sqrt_simplify(x / T(1e+08), T(1e+04) * m_val) :
             x > T(1e+06) ? \
                 sqrt_simplify(x / T(1e+06), T(1e+03) * m_val) :
-- 
2.43.0


From 8a09bd0ae6e46b977cf9ca3c81a9510a89053f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 10/24] fix: inv_sqrt(x) did not converge for large and small x

inv_sqrt(1e+40) and inv_sqrt(1e-40) were off by orders of magnitude; reduce x
by powers of 4 before iterating, as sqrt does.
---
 include/gcem_incl/inv_sqrt.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..b7f32b3 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,23 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{
+    return( x > T(18446744073709551616.0L) ? \
+                inv_sqrt_simplify(x / T(18446744073709551616.0L), m_val / T(4294967296.0L)) :
+            x > T(4) ? \
+                inv_sqrt_simplify(x / T(4), m_val / T(2)) :
+            x < T(1)/T(18446744073709551616.0L) ? \
+                inv_sqrt_simplify(x * T(18446744073709551616.0L), m_val * T(4294967296.0L)) :
+            x < T(0.25) ? \
+                inv_sqrt_simplify(x * T(4), m_val * T(2)) :
+                m_val * inv_sqrt_recur(x, x / T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +80,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From a8f8cb7fa5405074a9b69574cdbb2c83996f32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 11/24] fix: hypot(x,y) overflowed or lost y when |x| is much
 smaller than |y|

---
 include/gcem_incl/hypot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..8e84d71 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -56,7 +56,9 @@ noexcept
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
             // else
-            hypot_compute(x, y/x) );
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From 31f54fabe4265419ea620e5b8b91e28110e5c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 12/24] fix: tanh(x) exceeded 1 for large x

The truncated continued fraction grows linearly: tanh(100.0) was 1.4, and
tanh(inf) was NaN.
---
 include/gcem_incl/tanh.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..cb54452 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -71,7 +71,10 @@ T
 tanh_begin(const T x)
 noexcept
 {
-    return( x/tanh_cf(x*x,1) );
+    return( // indistinguishable from one
+            x > T(23) ? \
+                T(1) :
+                x/tanh_cf(x*x,1) );
 }
 
 template<typename T>
-- 
2.43.0


From d8ccba1703a8d77e900435ae335ccd240ee7e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 13/24] fix: asinh lost all accuracy for large negative x, and
 asinh and acosh overflowed for large x

asinh(-1e+10) was -inf, and asinh(1e+200) and acosh(1e+200) were inf.
---
 include/gcem_incl/acosh.hpp | 3 +++
 include/gcem_incl/asinh.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..a7de0c9 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // avoid overflow
+            x > T(1)/GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..24cca37 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,11 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // avoid cancellation and overflow
+            x < T(0) ? \
+                - asinh_compute(-x) :
+            x > T(1)/GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 154ec453adfd319cec18965ddede3ebd4225b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 14/24] fix: lgamma(x), and tgamma(x) with it, lost the digits
 of small x, and was NaN at +inf

lgamma(1e-20) was inf instead of 46.05.
---
 include/gcem_incl/lgamma.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..66becf1 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,11 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            is_posinf(x) ? \
+                x :
+            // x - 1 would lose the digits of small x
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From 8dc2e5f7688c9b0d361be468cfe851a6fdd20b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 15/24] fix: tgamma(x) recursed without bound for large
 negative x and -inf

The result underflows to zero long before the recursion exhausts the stack, and
the test for integers used a cast to long long that is out of range for large x.
---
 include/gcem_incl/tgamma.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..4a0fab2 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -45,8 +45,11 @@ noexcept
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                x == internal::floor_check(x) ? \
                     GCLIM<T>::quiet_NaN() :
+                // underflow
+                x < - T(GCLIM<T>::max_exponent10 + GCLIM<T>::digits10) ? \
+                    T(0) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From af10dbb206bb7f63c671c5b7522063dc9a0db68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 16/24] fix: incomplete_beta_inv did not compile when all
 arguments are integers

Use the same return type as incomplete_beta.
---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From b6433c57619d6ab6409ca68bbdc42aab76281eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 17/24] fix: log was off by log(10) for some x next to a
 negative power of ten

The decimal exponent was found with steps of 10, 100 and 10000 but the mantissa
with steps of 10 only; rounding made them disagree, e.g. log(0.1L) was -4.6 and
log(9.999999999999999e-05) was -11.5.  Use the same steps for both.
---
 include/gcem_incl/find_exponent.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/gcem_incl/find_exponent.hpp b/include/gcem_incl/find_exponent.hpp
index 200e4e9..d74222e 100644
--- a/include/gcem_incl/find_exponent.hpp
+++ b/include/gcem_incl/find_exponent.hpp
@@ -35,19 +35,12 @@ find_exponent(const T x, const llint_t exponent)
 noexcept
 {
     return( // < 1
-            x < T(1e-03)  ? \
-                find_exponent(x * T(1e+04), exponent - llint_t(4)) :
-            x < T(1e-01)  ? \
-                find_exponent(x * T(1e+02), exponent - llint_t(2)) :
+            // same steps, with the same rounding, as mantissa(x)
             x < T(1)  ? \
                 find_exponent(x * T(10), exponent - llint_t(1)) :
             // > 10
             x > T(10) ? \
                 find_exponent(x / T(10), exponent + llint_t(1)) :
-            x > T(1e+02) ? \
-                find_exponent(x / T(1e+02), exponent + llint_t(2)) :
-            x > T(1e+04) ? \
-                find_exponent(x / T(1e+04), exponent + llint_t(4)) :
             // else
                 exponent );
 }
-- 
2.43.0


From 685f7ee81cf3e69ca357f34fe582805619c723cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 18/24] fix: lbeta and beta of mixed types were evaluated in
 the narrower types

lbeta(0.3f,0.3) had only the precision of float, and a+b could overflow for
integers; convert to the common type first, as the other functions do.
---
 include/gcem_incl/lbeta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..c80bdf4 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -36,7 +36,9 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    using TC = common_return_t<T1,T2>;
+    return( (lgamma(static_cast<TC>(a)) + lgamma(static_cast<TC>(b)))
+                - lgamma(static_cast<TC>(a) + static_cast<TC>(b)) );
 }
 
 #endif
-- 
2.43.0


From f40b37707e75af4742ce2f002ab1be02ffbc1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 19/24] fix: atan2(-0.0,x) was +pi instead of -pi for x < 0

---
 include/gcem_incl/atan2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index 5ca55b7..f955b6e 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -48,7 +48,7 @@ noexcept
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             //
             x < T(0) ? \
-                y < T(0) ? \
+                y < T(0) || neg_zero(y) ? \
                     atan(y/x) - T(GCEM_PI) : 
                     atan(y/x) + T(GCEM_PI) :
             //
-- 
2.43.0


From beae620e2014367922189aedaeb8a40040418c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 20/24] fix: incomplete_beta_inv started from the wrong tail
 and missed the root when one parameter is at most 1

---
 include/gcem_incl/incomplete_beta_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 745669d..eb67133 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -153,7 +153,7 @@ incomplete_beta_inv_initial_val_2(const T alpha_par, const T beta_par, const T p
 noexcept
 {
     return( p <= s_1/(s_1 + s_2) ? pow(p*(s_1+s_2)*alpha_par,T(1)/alpha_par) :
-                                    T(1) - pow(p*(s_1+s_2)*beta_par,T(1)/beta_par) );
+                                    T(1) - pow((T(1)-p)*(s_1+s_2)*beta_par,T(1)/beta_par) );
 }
 
 // initial value
-- 
2.43.0


From f9c725dfcc86a615b5fe43a7f962584ee2ee0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:53 +0000
Subject: [PATCH 21/24] fix: incomplete_gamma(a>=10,x) was not a constant
 expression with GCC

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From a6f216232239162b5415a93cddde5b90e1caed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:22 +0000
Subject: [PATCH 22/24] fix: signbit, copysign and atan2 of a zero were not
 constant expressions with Clang

---
 include/gcem_incl/gcem_options.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcem_options.hpp b/include/gcem_incl/gcem_options.hpp
index 4113738..7239567 100644
--- a/include/gcem_incl/gcem_options.hpp
+++ b/include/gcem_incl/gcem_options.hpp
@@ -205,7 +205,11 @@ namespace gcem
     #endif
 #else
     #ifndef GCEM_SIGNBIT
-        #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #ifdef __clang__ // __builtin_signbit is not a constant expression in older versions of Clang
+            #define GCEM_SIGNBIT(x) (__builtin_copysignl(1.0L,x) < 0.0L)
+        #else
+            #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #endif
     #endif
     #ifndef GCEM_COPYSIGN
         #define GCEM_COPYSIGN(x,y) __builtin_copysign(x,y)
-- 
2.43.0


From f74e5aeb5d2c2273829f52f0968f20d131603c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:05 +0000
Subject: [PATCH 23/24] fix: pow(x,true) returned the cube of x

---
 include/gcem_incl/pow_integral.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 16a4ef8..b61901b 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -75,14 +75,15 @@ T1
 pow_integral_compute(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( exp_term == T2(3) ? \
-                base*base*base :
-            exp_term == T2(2) ? \
-                base*base :
-            exp_term == T2(1) ? \
-                base :
+    return( // bool has no values beyond one, so these come first
             exp_term == T2(0) ? \
                 T1(1) :
+            exp_term == T2(1) ? \
+                base :
+            exp_term == T2(2) ? \
+                base*base :
+            exp_term == T2(3) ? \
+                base*base*base :
             // - exp_term would overflow
             std::is_signed<T2>::value && exp_term == GCLIM<T2>::min() ? \
                 T1(1) / (base * pow_integral_compute(base, GCLIM<T2>::max())) :
-- 
2.43.0


From 5539361bb5eb88116943f230b9ec9cb906fc7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 24/24] fix: atan of a large float is a constant expression

The series for large arguments forms powers of x that overflow (float: beyond
about 1e9), which is not allowed in a constant expression. From 1e7 on the
first two terms are all that matters.
---
 include/gcem_incl/atan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..b626061 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,8 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1e+07)? atan_series_order(x,x,1U,2U)  :  // O(1/x^7)
+                          atan_series_order(x,x,1U,1U) );  // O(1/x^3); powers of x could overflow
 }
 
 // CF
-- 
2.43.0


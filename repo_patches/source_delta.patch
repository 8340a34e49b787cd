From 9bc1eb25eb31a04180cf28b69daca50286fa8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 01/53] fix: generate() on an empty range must not write
 through the iterator

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..dcb7cc6 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -85,6 +85,7 @@ template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
     using std::fmod;
+    if(begin == end) return;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
     int remaining_bits = 0;
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From 714e81e9aace5d04795a67d8e4d559cc8c8f58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 02/53] fix: mersenne_twister operator>> must not fail at end
 of input after the last word

---
 include/boost/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ca48e91 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From 6de3e98c08ff2145a8602bca2020c181d5b91692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 03/53] fix: lagged_fibonacci_engine operator>> must not fail
 at end of input after the last word

---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
-- 
2.43.0


From 5eb9c6e523d8fd07ffa4f842c16ad60123dc1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 04/53] fix: mixmax operator>> must accept every state
 operator<< writes and report bad input through the stream

---
 include/boost/random/mixmax.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..6602bac 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -138,14 +138,17 @@ public: // SEEDING FUNCTIONS
         boost::array<boost::uint64_t, Ndim> vec;
         boost::uint64_t sum=0, savedsum=0, counter=0;
         in >> counter >> std::ws;
-        BOOST_ASSERT(counter==Ndim);
+        if (!in || counter!=Ndim){
+            in.setstate(std::ios::failbit);
+            return in;
+        }
         in >> counter >> std::ws;
         in >> savedsum >> std::ws;
         for(int j=0;j<Ndim;j++) {
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (in && sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 503bc42e1cd2496722ec2b17fd24eadfd471454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 05/53] fix: subtract_with_carry discard(z) from the start of a
 block with z < long_lag

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From 3b075e16542fb19b0830d48789c20d4894948d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 06/53] fix: subtract_with_carry equality must compare the
 carry

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From cd6d7a7ecaf7062cb63f97582d118137ea40b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 07/53] fix: splitmix64 operator>> must read one number and
 leave the rest of the stream

---
 include/boost/random/splitmix64.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..4611bcc 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,17 +154,11 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
+        std::uint64_t state;
+        if (ist >> state)
         {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
+            e.state_ = state;
         }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
 
         return ist;
     }
-- 
2.43.0


From c3dc3d1c4eddc7348e46d85addab9992c1793177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 08/53] fix: shuffle_order operator>> must reject table values
 outside the base generator's range

---
 include/boost/random/shuffle_order.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 0dc6b26..d68c3fb 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -194,8 +194,8 @@ public:
     {
         is >> s._rng;
         for(std::size_t i = 0; i < k; ++i)
-            is >> std::ws >> s.v[i];
-        is >> std::ws >> s.y;
+            read_value(is, s.v[i]);
+        read_value(is, s.y);
         return is;
     }
 
@@ -209,6 +209,19 @@ private:
 
     /// \cond show_private
 
+    template<class CharT, class Traits>
+    static void read_value(std::basic_istream<CharT,Traits>& is, result_type& value)
+    {
+        result_type x;
+        if(is >> std::ws >> x) {
+            if(x >= (min)() && x <= (max)()) {
+                value = x;
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
+        }
+    }
+
     void init()
     {
         // we cannot use std::generate, because it uses pass-by-value for _rng
-- 
2.43.0


From 1dc99e15b850070fee1243084f7ef47c6db8155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 09/53] fix: discard_block operator>> must reject an impossible
 block position

---
 include/boost/random/discard_block.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index b9b09ab..8c225b2 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -161,7 +161,14 @@ public:
     friend std::basic_istream<CharT,Traits>&
     operator>>(std::basic_istream<CharT,Traits>& is, discard_block_engine& s)
     {
-        is >> s._rng >> std::ws >> s._n;
+        std::size_t n;
+        if(is >> s._rng >> std::ws >> n) {
+            if(n <= returned_block) {
+                s._n = n;
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
+        }
         return is;
     }
 #endif
-- 
2.43.0


From 18e3bc28da40d051dfcb631b87220b9279017f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 10/53] fix: shuffle_order over a full-width 64-bit base
 computed its table index from a garbage shift

muldivmod treats m == 0 as 2^64, but took integer_log2(0) to normalize it.
---
 include/boost/random/detail/large_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..0057ab7 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,8 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 stands for 2^digits, which needs no normalization.
+    int shift = m == 0? 0 : std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From 332e0839220a5134673eb73bafa89047660ab33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 11/53] fix: linear_feedback_shift_engine must keep values
 within w bits when result_type is wider

---
 include/boost/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..ce35b43 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From ba51404b89a844396d30a940dc0ce8ddf50bd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 12/53] fix: muldivmod must not correct a quotient digit when
 the partial remainder wrapped

A linear congruential engine with a multi-word modulus left its recurrence
at states where the top digit of the partial remainder equals that of m.
---
 include/boost/random/detail/large_arithmetic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 0057ab7..593dbab 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -79,13 +79,14 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t partial = temp - ::boost::uintmax_t(q) * m_[1];
+        ::boost::uintmax_t rem = (partial << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
         int error = 0;
-        if(diff > rem) {
+        // if partial doesn't fit in a digit, rem wrapped and is really larger than diff
+        if((partial >> bits) == 0 && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From ef47a6b3c2cf0bfadd5191279353b09a5f0cc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 13/53] fix: mersenne_twister discard by jumping left bits
 above w set when UIntType is wider

---
 include/boost/random/mersenne_twister.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ca48e91..937a7fd 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -464,8 +464,9 @@ private:
     }
     void reconstruct_state(const detail::polynomial& p)
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        // UIntType may be wider than w bits
+        const UIntType upper_mask = ((max)() >> r) << r;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
-- 
2.43.0


From c972484d0c21c691fef94d470319a87b34c11200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 14/53] fix: read_vector must not clear stream errors or throw
 during unwinding

---
 include/boost/random/detail/vector_io.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/boost/random/detail/vector_io.hpp b/include/boost/random/detail/vector_io.hpp
index fe3869a..41f5c07 100644
--- a/include/boost/random/detail/vector_io.hpp
+++ b/include/boost/random/detail/vector_io.hpp
@@ -16,7 +16,6 @@
 #include <vector>
 #include <iosfwd>
 #include <istream>
-#include <boost/io/ios_state.hpp>
 
 namespace boost {
 namespace random {
@@ -53,21 +52,16 @@ void read_vector(std::basic_istream<CharT, Traits>& is, std::vector<T>& vec)
         is.setstate(std::ios_base::failbit);
         return;
     }
-    boost::io::basic_ios_exception_saver<CharT, Traits> e(is, std::ios_base::goodbit);
-    T val;
-    while(is >> std::ws >> val) {
-        vec.push_back(val);
-    }
-    if(is.fail()) {
-        is.clear();
-        e.restore();
-        if(!(is >> ch)) {
+    while(is >> std::ws >> ch) {
+        if(ch == is.widen(']')) {
             return;
         }
-        if(ch != is.widen(']')) {
-            is.putback(ch);
-            is.setstate(std::ios_base::failbit);
+        is.putback(ch);
+        T val;
+        if(!(is >> val)) {
+            return;
         }
+        vec.push_back(val);
     }
 }
 
-- 
2.43.0


From 638029b3fefd2b14150d59f2b8a59cd63810076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 15/53] fix: validate values read by inversive_congruential and
 linear_feedback_shift engines

---
 include/boost/random/inversive_congruential.hpp | 10 +++++++++-
 include/boost/random/linear_feedback_shift.hpp  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/inversive_congruential.hpp b/include/boost/random/inversive_congruential.hpp
index 493e51c..bd6276c 100644
--- a/include/boost/random/inversive_congruential.hpp
+++ b/include/boost/random/inversive_congruential.hpp
@@ -17,6 +17,7 @@
 #define BOOST_RANDOM_INVERSIVE_CONGRUENTIAL_HPP
 
 #include <iosfwd>
+#include <istream>
 #include <stdexcept>
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -192,7 +193,14 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, inversive_congruential_engine, x)
     {
-        is >> x._value;
+        IntType value;
+        if(is >> value) {
+            if(value >= (min)() && value <= (max)()) {
+                x._value = value;
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
+        }
         return is;
     }
 
diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index ce35b43..67f500e 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -16,6 +16,7 @@
 #define BOOST_RANDOM_LINEAR_FEEDBACK_SHIFT_HPP
 
 #include <iosfwd>
+#include <istream>
 #include <stdexcept>
 #include <boost/config.hpp>
 #include <boost/cstdint.hpp>
@@ -149,7 +150,14 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, linear_feedback_shift_engine, x)
     {
-        is >> x.value;
+        UIntType val;
+        if(is >> val) {
+            if(val <= (max)()) {
+                x.value = val;
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
+        }
         return is;
     }
 
-- 
2.43.0


From 3b0b2c3a74fac04dc57b3f1078f264f3bab0dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 16/53] fix: read triangle and geometric parameters as RealType

---
 include/boost/random/geometric_distribution.hpp | 2 +-
 include/boost/random/triangle_distribution.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 90374cf..f6692f1 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -76,7 +76,7 @@ public:
         /** Reads the parameters from a std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double p_in;
+            RealType p_in;
             if(is >> p_in) {
                 if(p_in > RealType(0) && p_in < RealType(1)) {
                     parm._p = p_in;
diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 6d37e2b..956dd0d 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -74,7 +74,7 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double a_in, b_in, c_in;
+            RealType a_in, b_in, c_in;
             if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {
                 if(a_in <= b_in && b_in <= c_in) {
                     parm._a = a_in;
-- 
2.43.0


From f09dd7119c648bb9f0b77183127d544f71da36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 17/53] fix: uniform_on_sphere keeps dimension and container
 consistent when a restore or resize fails

---
 include/boost/random/uniform_on_sphere.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/uniform_on_sphere.hpp b/include/boost/random/uniform_on_sphere.hpp
index ce2e352..eebedc9 100644
--- a/include/boost/random/uniform_on_sphere.hpp
+++ b/include/boost/random/uniform_on_sphere.hpp
@@ -17,6 +17,7 @@
 #ifndef BOOST_RANDOM_UNIFORM_ON_SPHERE_HPP
 #define BOOST_RANDOM_UNIFORM_ON_SPHERE_HPP
 
+#include <istream>
 #include <vector>
 #include <algorithm>     // std::transform
 #include <functional>    // std::bind2nd, std::divides
@@ -71,7 +72,14 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            is >> parm._dim;
+            int dim_in;
+            if(is >> dim_in) {
+                if(dim_in >= 0) {
+                    parm._dim = dim_in;
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
+            }
             return is;
         }
 
@@ -111,8 +119,8 @@ public:
     /** Sets the parameters of the distribution. */
     void param(const param_type& parm)
     {
+        _container.resize(parm.dim());
         _dim = parm.dim();
-        _container.resize(_dim);
     }
 
     /**
@@ -256,8 +264,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_on_sphere, sd)
     {
-        is >> sd._dim;
-        sd._container.resize(sd._dim);
+        param_type parm;
+        if(is >> parm) {
+            sd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From eca38883f065325af89a6963ec9a689efb09fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 18/53] fix: piecewise distributions reject parameters whose
 interval and weight counts disagree

---
 include/boost/random/piecewise_constant_distribution.hpp | 9 +++++++--
 include/boost/random/piecewise_linear_distribution.hpp   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..e5b3640 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -194,8 +194,13 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(new_intervals.size() >= 2
+                    && new_intervals.size() == new_weights.size() + 1) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 541c57f..5dbd92a 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -209,8 +209,13 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(new_intervals.size() >= 2
+                    && new_intervals.size() == new_weights.size()) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
-- 
2.43.0


From d86057a8d010f4ae471f09961f44a468797adbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 19/53] fix: discrete_distribution rebuilds its alias table
 instead of keeping stale aliases

---
 include/boost/random/discrete_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..15c98b9 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,7 +74,7 @@ struct integer_alias_table {
                 }
             }
         }
-        _alias_table.resize(static_cast<std::size_t>(n));
+        alias_table_t(static_cast<std::size_t>(n)).swap(_alias_table);
         _average = weight_average;
         _excess = excess;
         return weight_average;
@@ -144,7 +144,7 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
-        _alias_table.resize(size);
+        alias_table_t(size).swap(_alias_table);
         return weight_sum / size;
     }
     void init_empty()
-- 
2.43.0


From 0fdda11f5bb8c7b530be837bda7ce309fcc670b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 20/53] fix: discrete_distribution tests integer weight sums
 for overflow the right way round

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 15c98b9..c083890 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -113,7 +113,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From c4e4d88561e8349f7855224ed03f24c1797adb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 21/53] fix: discrete_distribution::param_type of an empty
 range is the default parameter

---
 include/boost/random/discrete_distribution.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c083890..da45703 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -315,6 +315,9 @@ public:
             std::vector<WeightType> temp;
             detail::read_vector(is, temp);
             if(is) {
+                if(temp.empty()) {
+                    temp.push_back(static_cast<WeightType>(1));
+                }
                 parm._probabilities.swap(temp);
             }
             return is;
@@ -335,6 +338,9 @@ public:
         {}
         void normalize()
         {
+            if(_probabilities.empty()) {
+                _probabilities.push_back(static_cast<WeightType>(1));
+            }
             impl_type::normalize(_probabilities);
         }
         std::vector<WeightType> _probabilities;
-- 
2.43.0


From 2ff41577a385c3799fda9e514f06538f281168b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 22/53] fix: qrng operator>> rebuilds the state when the
 dimension changes and leaves it unchanged on failure

---
 include/boost/random/detail/qrng_base.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..3dce754 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -155,14 +155,12 @@ public:
       // Check seed sign before resizing the lattice and/or recomputing state
       check_seed_sign(seed);
 
-      if (s.dimension() != prevent_zero_dimension(dim))
-      {
-        s.lattice.resize(dim);
-        s.quasi_state.resize(dim);
-      }
-      // Fast-forward to the correct state
-      s.derived().seed(seed);
-      if (z != 0) s.discard(z);
+      // Fast-forward a fresh generator to the correct state, so that
+      // a failure has no effect on s
+      DerivedT tmp(prevent_zero_dimension(dim));
+      tmp.seed(seed);
+      if (z != 0) tmp.discard(z);
+      s.derived() = tmp;
     }
     return is;
   }
-- 
2.43.0


From c50e35fcbae54b1f73d0fa85f5c975b7a840cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 23/53] fix: assign multi-container objects all or nothing

---
 include/boost/random/detail/qrng_base.hpp     | 14 +++++++++--
 .../random/hyperexponential_distribution.hpp  | 23 ++++++++++++++++++-
 .../piecewise_constant_distribution.hpp       | 21 +++++++++++++++++
 .../random/piecewise_linear_distribution.hpp  | 22 ++++++++++++++++++
 4 files changed, 77 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 3dce754..f597ae7 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -10,6 +10,7 @@
 #define BOOST_RANDOM_DETAIL_QRNG_BASE_HPP
 
 #include <stdexcept>
+#include <utility>
 #include <vector>
 #include <limits>
 
@@ -69,9 +70,18 @@ public:
     derived().seed();
   }
 
-  // default copy c-tor is fine
+  qrng_base(const qrng_base&) = default;
+  qrng_base(qrng_base&&) = default;
 
-  // default assignment operator is fine
+  // Assigns all members or, if an allocation fails, none of them
+  qrng_base& operator=(qrng_base other)
+  {
+    curr_elem = other.curr_elem;
+    seq_count = other.seq_count;
+    std::swap(lattice, other.lattice);
+    quasi_state.swap(other.quasi_state);
+    return *this;
+  }
 
   //!Returns: The dimension of of the quasi-random domain.
   //!
diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..334c101 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -38,6 +38,7 @@
 #include <iostream>
 #include <limits>
 #include <numeric>
+#include <utility>
 #include <vector>
 
 
@@ -533,6 +534,15 @@ class hyperexponential_distribution
         /** Returns true if the two sets of parameters are the different. */
         public: BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(param_type)
 
+        public: param_type(const param_type&) = default;
+        public: param_type(param_type&&) = default;
+        /** Assigns all members or, if an allocation fails, none of them. */
+        public: param_type& operator=(param_type other)
+        {
+            probs_.swap(other.probs_);
+            rates_.swap(other.rates_);
+            return *this;
+        }
 
         private: std::vector<RealT> probs_; ///< The <em>phase probability vector</em> parameter of the distribution
         private: std::vector<RealT> rates_; ///< The <em>rate vector</em> parameter of the distribution
@@ -685,6 +695,16 @@ class hyperexponential_distribution
         BOOST_ASSERT( hyperexp_detail::check_params(dd_.probabilities(), rates_) );
     }
 
+    public: hyperexponential_distribution(const hyperexponential_distribution&) = default;
+    public: hyperexponential_distribution(hyperexponential_distribution&&) = default;
+    /** Assigns all members or, if an allocation fails, none of them. */
+    public: hyperexponential_distribution& operator=(hyperexponential_distribution other)
+    {
+        std::swap(dd_, other.dd_);
+        rates_.swap(other.rates_);
+        return *this;
+    }
+
 #ifndef BOOST_NO_CXX11_HDR_INITIALIZER_LIST
     /**
      * Constructs a \c hyperexponential_distribution from the <em>phase
@@ -814,8 +834,9 @@ class hyperexponential_distribution
     /** Sets the parameters of the distribution. */
     public: void param(param_type const& param)
     {
+        std::vector<RealT> new_rates(param.rates());
         dd_.param(typename boost::random::discrete_distribution<int,RealT>::param_type(param.probabilities()));
-        rates_ = param.rates();
+        rates_.swap(new_rates);
     }
 
     /**
diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index e5b3640..9803332 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -15,6 +15,7 @@
 
 #include <vector>
 #include <numeric>
+#include <utility>
 #include <boost/assert.hpp>
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/discrete_distribution.hpp>
@@ -214,6 +215,16 @@ public:
         /** Returns true if the two sets of parameters are different. */
         BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(param_type)
 
+        param_type(const param_type&) = default;
+        param_type(param_type&&) = default;
+        /** Assigns all members or, if an allocation fails, none of them. */
+        param_type& operator=(param_type other)
+        {
+            _intervals.swap(other._intervals);
+            _weights.swap(other._weights);
+            return *this;
+        }
+
     private:
 
         friend class piecewise_constant_distribution;
@@ -362,6 +373,16 @@ public:
     {
     }
 
+    piecewise_constant_distribution(const piecewise_constant_distribution&) = default;
+    piecewise_constant_distribution(piecewise_constant_distribution&&) = default;
+    /** Assigns all members or, if an allocation fails, none of them. */
+    piecewise_constant_distribution& operator=(piecewise_constant_distribution other)
+    {
+        std::swap(_bins, other._bins);
+        _intervals.swap(other._intervals);
+        return *this;
+    }
+
     /**
      * Returns a value distributed according to the parameters of the
      * piecewist_constant_distribution.
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 5dbd92a..0c77cee 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdlib>
+#include <utility>
 #include <boost/assert.hpp>
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/discrete_distribution.hpp>
@@ -229,6 +230,16 @@ public:
         /** Returns true if the two sets of parameters are different. */
         BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(param_type)
 
+        param_type(const param_type&) = default;
+        param_type(param_type&&) = default;
+        /** Assigns all members or, if an allocation fails, none of them. */
+        param_type& operator=(param_type other)
+        {
+            _intervals.swap(other._intervals);
+            _weights.swap(other._weights);
+            return *this;
+        }
+
     private:
         friend class piecewise_linear_distribution;
 
@@ -369,6 +380,17 @@ public:
         init();
     }
 
+    piecewise_linear_distribution(const piecewise_linear_distribution&) = default;
+    piecewise_linear_distribution(piecewise_linear_distribution&&) = default;
+    /** Assigns all members or, if an allocation fails, none of them. */
+    piecewise_linear_distribution& operator=(piecewise_linear_distribution other)
+    {
+        std::swap(_bins, other._bins);
+        _intervals.swap(other._intervals);
+        _weights.swap(other._weights);
+        return *this;
+    }
+
     /**
      * Returns a value distributed according to the parameters of the
      * piecewise_linear_distribution.
-- 
2.43.0


From 8cee58971fee606ecd04b273a8623a963755b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 24/53] fix: seed_seq::generate works modulo 2^32 for wider
 types and accepts an empty range

---
 include/boost/random/seed_seq.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..da0a401 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,9 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) {
+            return;
+        }
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
@@ -83,10 +86,10 @@ public:
                 (*(first + k%n) ^ *(first + (k+p)%n) ^ *(first + (k+n-1)%n));
             r1 = r1 ^ (r1 >> 27);
             r1 = (r1 * 1664525u) & mask;
-            value_type r2 = static_cast<value_type>(r1 +
+            value_type r2 = static_cast<value_type>((r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask);
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -97,7 +100,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>((r3 - k%n) & mask);
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From c8ee0e63885899b561d0bab26f4461350fa047a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 25/53] fix: faure cache stays consistent when an allocation
 fails

---
 include/boost/random/faure.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index 4301c30..b8f9aa1 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -137,8 +137,10 @@ struct binomial_coefficients
       const size_type ilog = fr::integer_log(static_cast<size_type>(qs_base), seq);
       const size_type hisum = ilog + 1;
       if (coeff.size() != size_hint(hisum)) {
-        ytemp.resize(static_cast<std::size_t>(hisum)); // cast safe because log is small
+        // Allocate before changing any size, so that a failure leaves the cache consistent.
+        ytemp.reserve(static_cast<std::size_t>(hisum)); // cast safe because log is small
         compute_coefficients(hisum);
+        ytemp.resize(static_cast<std::size_t>(hisum));
         qs_pow = fr::integer_pow(static_cast<size_type>(qs_base), ilog);
       }
 
-- 
2.43.0


From 98d70b876860a0a95a0ac8aef0c321b368dc0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 26/53] fix: qrng discard detects a vector count that wraps

---
 include/boost/random/detail/qrng_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index f597ae7..e859f98 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -121,6 +121,10 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
+    // A one-dimensional generator can be asked for more vectors than uintmax_t can count
+    if ((std::numeric_limits<boost::uintmax_t>::max)() - vec_n < carry / dimension_value)
+      boost::throw_exception( std::range_error("qrng_base: discard") );
+
     vec_n += carry / dimension_value;
     carry  = carry % dimension_value;
 
-- 
2.43.0


From 2acb61e3b89f7977344e6abbae42b35cda31cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 27/53] fix: random_device destructor must not throw when close
 fails

---
 src/random_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random_device.cpp b/src/random_device.cpp
index 4719a40..8433739 100644
--- a/src/random_device.cpp
+++ b/src/random_device.cpp
@@ -195,7 +195,7 @@ public:
       error("cannot open");
   }
 
-  ~impl() { if(close(fd) < 0) error("could not close"); }
+  ~impl() { close(fd); } // a destructor cannot report failure
 
   unsigned int next() {
     unsigned int result;
-- 
2.43.0


From 32ad38dc9c172993854a513e5ae6b16da4b779df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 28/53] fix: restore stream flags when writing a floating-point
 engine throws

---
 include/boost/random/lagged_fibonacci.hpp    | 4 ++--
 include/boost/random/subtract_with_carry.hpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 446a2ef..b0c312f 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -26,6 +26,7 @@
 #include <boost/limits.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/integer/integer_mask.hpp>
+#include <boost/io/ios_state.hpp>
 #include <boost/random/linear_congruential.hpp>
 #include <boost/random/uniform_01.hpp>
 #include <boost/random/detail/config.hpp>
@@ -354,10 +355,9 @@ public:
         // allow for Koenig lookup
         using std::pow;
         os << f.i;
-        std::ios_base::fmtflags oldflags = os.flags(os.dec | os.fixed | os.left);
+        boost::io::ios_flags_saver saver(os, os.dec | os.fixed | os.left);
         for(unsigned int j = 0; j < f.long_lag; ++j)
             os << ' ' << f.x[j] * f.modulus();
-        os.flags(oldflags);
         return os;
     }
 
diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index a043702..e68a788 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -26,6 +26,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/integer/static_log2.hpp>
 #include <boost/integer/integer_mask.hpp>
+#include <boost/io/ios_state.hpp>
 #include <boost/detail/workaround.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/seed.hpp>
@@ -454,12 +455,10 @@ public:
     /** Writes a \subtract_with_carry_01_engine to a @c std::ostream. */
     BOOST_RANDOM_DETAIL_OSTREAM_OPERATOR(os, subtract_with_carry_01_engine, f)
     {
-        std::ios_base::fmtflags oldflags =
-            os.flags(os.dec | os.fixed | os.left); 
+        boost::io::ios_flags_saver saver(os, os.dec | os.fixed | os.left);
         for(unsigned int j = 0; j < f.long_lag; ++j)
             os << (f.compute(j) * f._modulus) << ' ';
         os << (f.carry * f._modulus);
-        os.flags(oldflags);
         return os;
     }
     
-- 
2.43.0


From 0c4a52b936e1a7c410666ad8c932016bc68ef014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 29/53] fix: setting equal parameters gives equal
 piecewise_constant and hyperexponential distributions

---
 include/boost/random/hyperexponential_distribution.hpp   | 2 +-
 include/boost/random/piecewise_constant_distribution.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 334c101..fafb3b3 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -689,7 +689,7 @@ class hyperexponential_distribution
      * \param param The parameters of the distribution.
      */
     public: explicit hyperexponential_distribution(param_type const& param)
-    : dd_(param.probabilities()),
+    : dd_(typename boost::random::discrete_distribution<int,RealT>::param_type(param.probabilities())),
       rates_(param.rates())
     {
         BOOST_ASSERT( hyperexp_detail::check_params(dd_.probabilities(), rates_) );
diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 9803332..eeb2e68 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -368,7 +368,7 @@ public:
      * Constructs a piecewise_constant_distribution from its parameters.
      */
     explicit piecewise_constant_distribution(const param_type& parm)
-      : _bins(parm._weights),
+      : _bins(typename discrete_distribution<std::size_t, WeightType>::param_type(parm._weights)),
         _intervals(parm._intervals)
     {
     }
-- 
2.43.0


From 6a896b60b34f2455e1114aa43b8c8a27e1a3b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 30/53] fix: uniform_01 and bernoulli must not overflow on
 signed engines with a full range

---
 include/boost/random/bernoulli_distribution.hpp  |  6 +++++-
 .../random/detail/signed_unsigned_tools.hpp      | 16 ++++++++++++++++
 include/boost/random/uniform_01.hpp              |  9 +++++----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..580368d 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,10 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            detail::subtract_any<typename Engine::result_type> distance;
+            return RealType(distance(eng(), (eng.min)())) <= _p * RealType(distance((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
diff --git a/include/boost/random/detail/signed_unsigned_tools.hpp b/include/boost/random/detail/signed_unsigned_tools.hpp
index 1979908..e322b74 100644
--- a/include/boost/random/detail/signed_unsigned_tools.hpp
+++ b/include/boost/random/detail/signed_unsigned_tools.hpp
@@ -14,6 +14,7 @@
 #include <boost/limits.hpp>
 #include <boost/config.hpp>
 #include <boost/random/traits.hpp>
+#include <boost/type_traits/is_integral.hpp>
 
 namespace boost {
 namespace random {
@@ -50,6 +51,21 @@ struct subtract<T, /* signed */ true>
   }
 };
 
+/*
+ * Compute x - y, we know that x >= y, without overflow for built-in
+ * integers; other types (floating-point, multiprecision) subtract directly.
+ */
+
+template<class T, bool native = boost::is_integral<T>::value>
+struct subtract_any : subtract<T> { };
+
+template<class T>
+struct subtract_any<T, /* native */ false>
+{
+  typedef T result_type;
+  result_type operator()(T x, T y) { return x - y; }
+};
+
 /*
  * Compute x + y, x is unsigned, result fits in type of "y".
  */
diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..c535910 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -93,9 +94,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(subtract_any<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(subtract_any<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +136,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(subtract_any<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +150,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(subtract_any<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From d2c20a2280c38c8ac68110db77f97133145b128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 31/53] fix: uniform_int must add min_value when the range is a
 power of the engine's

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From 69785e0e1781bdab162ff6f29977e4678435d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 32/53] fix: int_float_pair must fill the last digit when it is
 a full one

---
 include/boost/random/detail/int_float_pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..b422ee3 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -88,7 +88,8 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
     }
     if (m - w%m < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        // bits still missing, in [1, m]
+        const std::size_t remaining = (digits - m + w%m - 1) % m + 1;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From 603252d4630f9396f1fb71f5036a201dcc93abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 33/53] fix: negative_binomial handles a gamma variate of zero

---
 include/boost/random/negative_binomial_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..cc551de 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -117,7 +117,10 @@ public:
     IntType operator()(URNG& urng) const
     {
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        // the gamma variate may underflow to 0, for which the result is 0
+        if(!(mean > RealType(0))) return IntType(0);
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From ea1013d33cedf34833c508c5ef0fa342e579e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 34/53] fix: poisson inversion must end when the tail is lost
 in round-off

---
 include/boost/random/poisson_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..81938fd 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -326,7 +326,12 @@ private:
         while(u > p) {
             u = u - p;
             ++x;
-            p = _mean * p / x;
+            RealType p1 = _mean * p / x;
+            // the remaining tail is lost in round-off
+            if(p1 < (std::numeric_limits<RealType>::epsilon)() && p1 < p) {
+                break;
+            }
+            p = p1;
         }
         return x;
     }
-- 
2.43.0


From 484b22f75e343c76bc4bd12bb1c8a26c293e4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 35/53] fix: gamma rejection must reject when the acceptance
 probability underflows to zero

---
 include/boost/random/gamma_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/gamma_distribution.hpp b/include/boost/random/gamma_distribution.hpp
index c9bda4c..00330c6 100644
--- a/include/boost/random/gamma_distribution.hpp
+++ b/include/boost/random/gamma_distribution.hpp
@@ -177,7 +177,7 @@ public:
                     + _alpha-result_type(1);
                 if(x <= result_type(0))
                     continue;
-                if(uniform_01<RealType>()(eng) >
+                if(uniform_01<RealType>()(eng) >=
                     (result_type(1)+y*y) * exp((_alpha-result_type(1))
                                                *log(x/(_alpha-result_type(1)))
                                                - sqrt(result_type(2)*_alpha
-- 
2.43.0


From 00e0c43eb8c7231bc3bbf6d41f9f751e8d5691aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 36/53] fix: beta, fisher_f and student_t must not divide zero
 by zero

---
 include/boost/random/beta_distribution.hpp      | 10 +++++++---
 include/boost/random/fisher_f_distribution.hpp  |  8 +++++++-
 include/boost/random/student_t_distribution.hpp |  8 +++++++-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index 145bf97..8b60135 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -101,9 +101,13 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng) const
     {
-        RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
-        RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
-        return a / (a + b);
+        for(;;) {
+            RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
+            RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
+            // both may be 0 through underflow
+            if(a + b > RealType(0))
+                return a / (a + b);
+        }
     }
 
     /**
diff --git a/include/boost/random/fisher_f_distribution.hpp b/include/boost/random/fisher_f_distribution.hpp
index cdf14da..30f4590 100644
--- a/include/boost/random/fisher_f_distribution.hpp
+++ b/include/boost/random/fisher_f_distribution.hpp
@@ -100,7 +100,13 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng)
     {
-        return (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+        for(;;) {
+            RealType numerator = _impl_m(urng) * n();
+            RealType denominator = _impl_n(urng) * m();
+            // both may be 0 through underflow
+            if(numerator != RealType(0) || denominator != RealType(0))
+                return numerator / denominator;
+        }
     }
 
     /**
diff --git a/include/boost/random/student_t_distribution.hpp b/include/boost/random/student_t_distribution.hpp
index e28b0e3..f110fb1 100644
--- a/include/boost/random/student_t_distribution.hpp
+++ b/include/boost/random/student_t_distribution.hpp
@@ -96,7 +96,13 @@ public:
     RealType operator()(URNG& urng)
     {
         using std::sqrt;
-        return _normal(urng) / sqrt(_chi_squared(urng) / n());
+        for(;;) {
+            RealType numerator = _normal(urng);
+            RealType denominator = sqrt(_chi_squared(urng) / n());
+            // both may be 0 through underflow
+            if(numerator != RealType(0) || denominator != RealType(0))
+                return numerator / denominator;
+        }
     }
 
     /**
-- 
2.43.0


From eed5f83b62ff365021f673746c55378c5155f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 37/53] fix: binomial inversion must not count beyond t

---
 include/boost/random/binomial_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..fe6dc96 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -375,7 +375,8 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        // the probabilities may sum to less than u because of round-off
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From d34a20579083b31d8d3722204a64bfc98a5cc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 38/53] fix: hyperexponential normalisation must not give a
 negative probability

---
 include/boost/random/hyperexponential_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index fafb3b3..486872e 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -65,7 +65,8 @@ std::vector<T>& normalize(std::vector<T>& v)
         *it /= sum;
         final_sum += *it;
     }
-    *end = 1-final_sum; // avoids round off errors thus ensuring the probabilities really sum to 1
+    // avoids round off errors thus ensuring the probabilities really sum to 1
+    *end = (final_sum < 1) ? 1-final_sum : static_cast<T>(0);
 
     return v;
 }
-- 
2.43.0


From 47c88e77c831d4715dfa0b2b883daf65a58ed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 39/53] fix: triangle_distribution must stay within [a, c]

---
 include/boost/random/triangle_distribution.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 956dd0d..ce8ebb9 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -163,9 +163,16 @@ public:
         using std::sqrt;
         result_type u = uniform_01<result_type>()(eng);
         if( u <= q1 )
-            return _a + p1*sqrt(u);
+        {
+            // round-off must not carry the result outside [a, c]
+            result_type x = _a + p1*sqrt(u);
+            return x > _c ? _c : x;
+        }
         else
-        return _c - d3*sqrt(d2*u-d1);
+        {
+            result_type x = _c - d3*sqrt(d2*u-d1);
+            return x < _a ? _a : x;
+        }
     }
 
     /**
-- 
2.43.0


From e7e14f823db67da69d162a97d939a8e1a6dc581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 40/53] fix: discrete_distribution with explicit parameters
 must not return a value of weight zero

---
 include/boost/random/discrete_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index da45703..cf749d9 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -470,8 +470,12 @@ public:
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
-            // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            // very close to 1.  Return the last value that is possible.
+            result = parm._probabilities.size() - 1;
+            while(result > 0 && !(parm._probabilities[result] > 0)) {
+                --result;
+            }
+            return static_cast<IntType>(result);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 4828ace462d9633dd13fa828b55eef3a68eccccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 41/53] fix: reading the old geometric_distribution must reject
 a parameter outside (0, 1)

---
 include/boost/random/geometric_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index f6692f1..101c65c 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -249,8 +249,12 @@ public:
     {
         RealType val;
         if(is >> val) {
-            typename impl_type::param_type impl_param(1 - val);
-            gd._impl.param(impl_param);
+            if(1 - val > RealType(0) && 1 - val < RealType(1)) {
+                typename impl_type::param_type impl_param(1 - val);
+                gd._impl.param(impl_param);
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
         }
         return is;
     }
-- 
2.43.0


From 50a6a105b3570e18cab2caf35e63117115b699b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 42/53] fix: niederreiter_base2 must keep the leading
 coefficient of its polynomials

---
 include/boost/random/niederreiter_base2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/niederreiter_base2.hpp b/include/boost/random/niederreiter_base2.hpp
index 5f05850..01f5156 100644
--- a/include/boost/random/niederreiter_base2.hpp
+++ b/include/boost/random/niederreiter_base2.hpp
@@ -124,7 +124,7 @@ public:
       }
 
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
-      const unsigned space_required = degree * ((bit_count / degree) + 1); // ~ degree + bit_count
+      const unsigned space_required = degree * ((bit_count / degree) + 1) + 1; // ~ degree + bit_count, plus the leading coefficient
 
       v.resize(degree + bit_count - 1);
 
-- 
2.43.0


From da3c4d3a325c36f366afe375db2dde58cf7ab13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 43/53] fix: sobol_engine must not write past its lattice when
 the word has fewer bits than a polynomial

---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..128c5be 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From f2718a34dc14b3705baf68f7553e2f2872b6be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 44/53] fix: qrng discard of 2^64-1 in one dimension must reach
 the end of the sequence

---
 include/boost/random/detail/qrng_base.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index e859f98..9cf3292 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -121,16 +121,15 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
-    // A one-dimensional generator can be asked for more vectors than uintmax_t can count
-    if ((std::numeric_limits<boost::uintmax_t>::max)() - vec_n < carry / dimension_value)
-      boost::throw_exception( std::range_error("qrng_base: discard") );
-
-    vec_n += carry / dimension_value;
-    carry  = carry % dimension_value;
+    const boost::uintmax_t extra = carry / dimension_value;
+    carry = carry % dimension_value;
 
     // Avoid overdiscarding by branchlessly correcting the triple
     // (D, S + 1, 0) to (D, S, D) (see equality operator)
-    const bool corr = (!carry) & static_cast<bool>(vec_n);
+    const bool corr = (!carry) & static_cast<bool>(vec_n | extra);
+
+    // May wrap around in one dimension, in which case corr is set
+    vec_n += extra;
 
     // Discards vec_n (with correction) consecutive s-dimensional vectors
     discard_vector(vec_n - static_cast<boost::uintmax_t>(corr));
-- 
2.43.0


From 5fa67ba4204c7d1901f8701d9a11ba02966f12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 45/53] fix: generate_canonical must scale the first value of a
 floating-point engine

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..d849f53 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From aaa7481857b4e6922db14f9cd1d2f1f1ac3090ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 46/53] fix: generate_canonical must compute the engine's range
 before rounding

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index d849f53..7f299ed 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -33,7 +33,7 @@ RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
     using std::pow;
     typedef typename URNG::result_type base_result;
     std::size_t digits = std::numeric_limits<RealType>::digits;
-    RealType R = RealType((g.max)()) - RealType((g.min)()) + 1;
+    RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
         pow(RealType(2),
-- 
2.43.0


From af8df1001d8ad294e98ef084c0493c0584c1cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 47/53] fix: independent_bits must work when a three-valued
 engine needs more calls than bits

---
 include/boost/random/independent_bits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..f055234 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -258,10 +258,10 @@ private:
         base_unsigned& y0, base_unsigned& y1,
         base_unsigned& y0_mask, base_unsigned& y1_mask)
     {
-        BOOST_ASSERT(w >= n);
         w0 = w/n;
         n0 = n - w % n;
-        y0_mask = (base_unsigned(2) << (w0 - 1)) - 1;
+        // w0 is zero when a base generator with 3 values needs more than w calls.
+        y0_mask = w0 == 0 ? base_unsigned(0) : base_unsigned((base_unsigned(2) << (w0 - 1)) - 1);
         y1_mask = (y0_mask << 1) | 1;
         y0 = (range + 1) & ~y0_mask;
         y1 = (range + 1) & ~y1_mask;
-- 
2.43.0


From f34387ec8cdadef1464ebe53c797c69be33d99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 48/53] fix: generate_canonical must stay below 1 when the sum
 rounds past it

---
 include/boost/random/generate_canonical.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 7f299ed..76f8191 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -81,9 +81,9 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
+    // Rounding can take the sum up to or just beyond 1.
+    if(result >= 1) {
+        result = 1 - std::numeric_limits<RealType>::epsilon() / 2;
         BOOST_ASSERT(result != 1);
     }
     return result;
-- 
2.43.0


From 5ba93d455d05905a5faf299fad3931cec552558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 49/53] fix: piecewise_constant_distribution::densities must
 compile when the weight type differs

---
 include/boost/random/piecewise_constant_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index eeb2e68..0421bdc 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -417,7 +417,8 @@ public:
      */
     std::vector<RealType> densities() const
     {
-        std::vector<RealType> result(_bins.probabilities());
+        std::vector<WeightType> probabilities(_bins.probabilities());
+        std::vector<RealType> result(probabilities.begin(), probabilities.end());
         for(std::size_t i = 0; i < result.size(); ++i) {
             result[i] /= (_intervals[i+1] - _intervals[i]);
         }
-- 
2.43.0


From 2743834e88923f061cbff84ab5ab7bbe2bb38733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 50/53] fix: xor_combine_engine: min() and max() bound the
 combined values

---
 include/boost/random/xor_combine.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..7c25946 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -25,6 +25,7 @@
 #include <boost/random/detail/seed.hpp>
 #include <boost/random/detail/seed_impl.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/traits.hpp>
 
 namespace boost {
 namespace random {
@@ -136,10 +137,16 @@ public:
 
     /** Returns the smallest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type min BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::min)()<(URNG2::min)()?(URNG1::min)():(URNG2::min)(); }
+    { return 0; }
     /** Returns the largest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type max BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::max)()>(URNG2::max)()?(URNG1::max)():(URNG2::max)(); }
+    {
+        return static_cast<result_type>(
+            fill_bits(static_cast<unsigned_type>(
+                (fill_bits(static_cast<unsigned_type>((URNG1::max)())) << s1) |
+                (fill_bits(static_cast<unsigned_type>((URNG2::max)())) << s2))) &
+            static_cast<unsigned_type>((std::numeric_limits<result_type>::max)()));
+    }
 
     /**
      * Writes the textual representation of the generator to a @c std::ostream.
@@ -167,6 +174,18 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(xor_combine_engine)
 
 private:
+    /// \cond show_private
+    typedef typename boost::random::traits::make_unsigned<result_type>::type unsigned_type;
+
+    // sets all the bits below the highest one set in x, because
+    // the values of the base generators can combine to any of them.
+    static BOOST_CONSTEXPR unsigned_type fill_bits(unsigned_type x, int shift = 1)
+    {
+        return shift < std::numeric_limits<unsigned_type>::digits ?
+            fill_bits(static_cast<unsigned_type>(x | (x >> shift)), shift * 2) : x;
+    }
+    /// \endcond
+
     base1_type _rng1;
     base2_type _rng2;
 };
-- 
2.43.0


From 51a247486527017623d0354a462c814332625de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 51/53] fix: binomial_distribution: no integer overflow when t
 is the largest value of IntType

---
 include/boost/random/binomial_distribution.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index fe6dc96..0cefe30 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -260,7 +260,7 @@ private:
     {
         if(k < 10) return detail::binomial_table<RealType>::table[k];
         else {
-            RealType ikp1 = RealType(1) / (k + 1);
+            RealType ikp1 = RealType(1) / (k + RealType(1));
             return (RealType(1)/12
                  - (RealType(1)/360
                  - (RealType(1)/1260)*(ikp1*ikp1))*(ikp1*ikp1))*ikp1;
@@ -275,13 +275,13 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        m = static_cast<IntType>((t+RealType(1))*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = (t+RealType(1))*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -352,9 +352,9 @@ private:
                 RealType h = (m + 0.5)*log((m + 1)/(_u.btrd.r*nm))
                            + fc(m) + fc(_t - m);
 
-                IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
-                          + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
+                RealType nk = (_t - k) + RealType(1);
+                if(v <= h + (_t+RealType(1))*log(static_cast<RealType>(nm)/nk)
+                          + (k + 0.5)*log(nk*_u.btrd.r/(k+RealType(1)))
                           - fc(k)
                           - fc(_t - k))
                 {
@@ -371,7 +371,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (t + RealType(1)) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0


From 0f687529fea622ea26b79fae8bbc3f56820f8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:55 +0000
Subject: [PATCH 52/53] fix: hyperexponential param_type built from rates only
 has normalised probabilities

---
 include/boost/random/hyperexponential_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 486872e..590a322 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -338,7 +338,9 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
-            BOOST_ASSERT(probs_.size() == rates_.size());
+            hyperexp_detail::normalize(probs_);
+
+            BOOST_ASSERT( hyperexp_detail::check_params(probs_, rates_) );
         }
 
         /**
-- 
2.43.0


From 1e474268813e6e93ab52d0a18d2da0c1d40c5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 53/53] fix: deprecated xor_combine min() and max() are those
 of the engine

---
 include/boost/random/xor_combine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 7c25946..339bbe0 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -217,8 +217,8 @@ public:
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
 
-    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
+    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::min)(); }
+    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::max)(); }
 };
 
 /// \endcond
-- 
2.43.0


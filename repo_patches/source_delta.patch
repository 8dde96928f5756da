From 5cdf5e990b91e498139c4f5aa7a1e379ef7fb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 01/25] fix: decide magnitude order at the most significant
 differing digit

abs_val_is_gt/abs_val_is_lt kept scanning past a smaller (larger) digit, so
19 > 20 and 20 < 19 were both reported true.
---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From 5967baba32ea76efc0b1080a4312d89d66a3851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 02/25] fix: compare two negative numbers with the right
 strictness

-5 > -5 was true, -5 >= -5 and -5 <= -5 were false.
---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From 07828b52df1d5ecb6cdde13031b8f1625c82601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 03/25] fix: ignore leading zero digits when comparing
 magnitudes

Digits can be appended at the top (push_back, resize), as compress_test does;
comparing raw lengths made 5 (stored as 05) greater than 7, and a zero stored
as one zero digit different from an empty one. Division relied on it too.
---
 include/bignum/impl/bn_compare_impl.h | 57 ++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index cc45ab9..c64ec49 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,20 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Number of digits, not counting zeroes at the most-significant positions
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_num_digits(const container_type& num) {
+    typename container_type::size_type i = num.size();
+    
+    while (i && 0 == num[i-1]) {
+        --i;
+    }
+    
+    return i;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +23,15 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    const typename container_type::size_type size1 = abs_val_num_digits(num1);
+    const typename container_type::size_type size2 = abs_val_num_digits(num2);
+    
+    if (size1 != size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,15 +50,18 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_num_digits(num1);
+    const typename container_type::size_type size2 = abs_val_num_digits(num2);
+    
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -63,15 +83,18 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_num_digits(num1);
+    const typename container_type::size_type size2 = abs_val_num_digits(num2);
+    
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -93,15 +116,18 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_num_digits(num1);
+    const typename container_type::size_type size2 = abs_val_num_digits(num2);
+    
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
@@ -123,15 +149,18 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_num_digits(num1);
+    const typename container_type::size_type size2 = abs_val_num_digits(num2);
+    
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
-- 
2.43.0


From 213e5c52145886d2232c74afb85f969b6db24d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 04/25] fix: never subtract past the end of the minuend

Subtracting two empty numbers (0 - 0), or one stored with more leading zeroes
than the minuend has digits, read and wrote out of bounds.
---
 include/bignum/impl/bn_subtraction_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..068074c 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
@@ -35,7 +33,7 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
-- 
2.43.0


From 599d119d3054bd83742f8adb60146b764e34dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 05/25] fix: add magnitudes when subtracting numbers of
 opposite sign

5 - (-3) gave 2 and 3 - (-5) gave 0.
---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From c42319493ba4b22f2399f86d1070a1f31c9fe1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 06/25] fix: double digits in double precision when dividing

With 8, 16 and 32-bit digits the base itself does not fit into a digit, so
every division took a remainder modulo 0 and died of SIGFPE.
---
 include/bignum/impl/bn_division_impl.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..a5e19f8 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -29,10 +29,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_double temp = ((bn_double)container[curr] * (bn_double)2) + (bn_double)carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 46abec614cf53224d1ad178d102fded985f58de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 07/25] fix: dividing a number by one of equal magnitude yields
 1, not 0

---
 include/bignum/impl/bn_type_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..0e97f1a 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -680,6 +680,10 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
             numData = {bn_single{0}};
-- 
2.43.0


From 2663a687f7cf4166d788abbcc0c99fe216290a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 08/25] fix: recognise a zero divisor in every stored form

Zero is normally stored without any digit (Bignum(), Bignum(BN_POS, {0}),
a - a); dividing by it looped forever while allocating memory.
---
 include/bignum/impl/bn_type_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 0e97f1a..f2bd6f1 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -641,8 +641,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
-    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -657,7 +655,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (!abs_val_num_digits(num.numData))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
@@ -669,7 +667,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (!abs_val_num_digits(numData))
     {
         return *this;
     }
-- 
2.43.0


From ca03336214bfff9010f6dd0c0bc7c79f4d54330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 09/25] fix: multiply numbers without digits

0 * 0 recursed forever in the transform of an empty signal.
---
 include/bignum/impl/bn_multiplication_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..d8b29f6 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -20,6 +20,10 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
     
+    if (a.empty() || b.empty()) {
+        return container_t{};
+    }
+    
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
     
-- 
2.43.0


From e7981dcf149482bcbd08c9666b8c14e72c27425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 10/25] fix: accumulate convolution sums in 64 bits

The double-precision digit type of the limits holds a single product at best
(and is the digit type itself for the BNIntType bases), so products of two or
more 8/16-bit, base-256 or long base-2/8 digits wrapped around.
---
 include/bignum/impl/bn_multiplication_impl.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index d8b29f6..6324a3d 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,9 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+1;
     
     if (a.empty() || b.empty()) {
         return container_t{};
@@ -35,14 +35,16 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     container_t ret;
     ret.reserve(inverses.size());
 
-    for (cmplx_size_t<flt_t> i = 0, c = 0; i < inverses.size(); ++i) {
+    bn_u64_t c = 0;
+    
+    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
         // drop imaginary part of the number
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
-- 
2.43.0


From e6187c03bc5e799dc4b2587d242e3794fc6dcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 11/25] fix: compute schoolbook products in 64 bits and trim
 them

---
 include/bignum/impl/bn_multiplication_impl.h | 21 +++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 6324a3d..3c6bcd0 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -73,9 +73,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+1;
     
     container_t ret{};
     
@@ -87,19 +87,22 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_u64_t remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_u64_t digit = (bn_u64_t)ret[index] + remainder + (bn_u64_t)a[j] * (bn_u64_t)b[i];
+            ret[index] = (bn_single)(digit % NUM_BASE);
+            remainder = digit / NUM_BASE;
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
     }
     
+    // trim trailing zeroes from the most-significant digits
+    ret.resize(abs_val_num_digits(ret));
+    
     return ret;
 }
 
-- 
2.43.0


From 343b7aa691f4388495fe63ff8489c8099d8805c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 12/25] fix: multiply exactly when an FFT lacks the precision

A double cannot hold products of 32-bit digits, so every multi-digit product
of the default bignum type was wrong. Fall back to the schoolbook routine
whenever convolution sums may exceed what the transform computes exactly.
---
 include/bignum/bn_multiplication.h           | 16 ++++++++++++++++
 include/bignum/impl/bn_multiplication_impl.h | 17 +++++++++++++++++
 include/bignum/impl/bn_type_impl.h           |  7 ++++++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/bignum/bn_multiplication.h b/include/bignum/bn_multiplication.h
index 0b3f3dd..a18fda1 100644
--- a/include/bignum/bn_multiplication.h
+++ b/include/bignum/bn_multiplication.h
@@ -10,6 +10,22 @@
 
 
 
+/**
+ * Determine if an FFT, using double-precision floating point numbers, has
+ * enough precision to calculate the exact product of two numbers.
+ * 
+ * @param A container, managed by a container_t_t class, which will be multiplied.
+ * 
+ * @param A container, managed by a container_t_t class, which will be multiplied.
+ * 
+ * @return TRUE if "mul_strassen" returns the exact product of both numbers,
+ * FALSE if otherwise.
+ */
+template <typename limits_t, typename container_t>
+bool mul_strassen_is_exact(const container_t& a, const container_t& b);
+
+
+
 /**
  * Perform multiplication on two numbers using an FFT and return their product.
  * 
diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 3c6bcd0..97914ff 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -9,6 +9,23 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Precision check for the FFT-based multiplication
+///////////////////////////////////////////////////////////////////////////////
+template <typename limits_t, typename container_t>
+bool mul_strassen_is_exact(const container_t& a, const container_t& b) {
+    // Largest convolution sum that can be rounded to the correct integer. This
+    // leaves 12 bits of a double's mantissa to the transforms' rounding errors.
+    static constexpr bn_u64_t MAX_SUM = (bn_u64_t)1 << 40;
+    static constexpr bn_u64_t MAX_DIGIT = limits_t::SINGLE_BASE_MAX;
+    
+    const bn_u64_t numSums = (a.size() < b.size()) ? a.size() : b.size();
+    
+    return !numSums || MAX_DIGIT * MAX_DIGIT <= MAX_SUM / numSums;
+}
+
+
+
 ///////////////////////////////////////////////////////////////////////////////
 // FFT-based multiplication
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index f2bd6f1..7c938b5 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -612,7 +612,12 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // std::deque throws exceptions when a memory error occurs
     try {
-        ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
+        if (mul_strassen_is_exact<limits_t, container_t>(numData, num.numData)) {
+            ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
+        }
+        else {
+            ret.numData = std::move(mul_naive<limits_t, container_t>(numData, num.numData));
+        }
         *this = std::move(ret);
     }
     catch(const std::exception& e) {
-- 
2.43.0


From f8316e8e2e5f081fabad9eedad96c46c9af6fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 13/25] fix: do not require reserve() from digit containers

The documented container requirements are those shared by std::vector and
std::deque; multiplying deque-based numbers did not compile.
---
 include/bignum/impl/bn_multiplication_impl.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 97914ff..978a755 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -50,7 +50,6 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     const cmplx_list_t<flt_t>& inverses = fftTable;
     
     container_t ret;
-    ret.reserve(inverses.size());
 
     bn_u64_t c = 0;
     
-- 
2.43.0


From 196fb8f6ad369e4a817537654d28b941982fbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 14/25] fix: never leave a negative zero as the result of
 arithmetic

-5 + 5, 0 * -3 and -1 / 2 printed -0 and compared unequal to zero.
---
 include/bignum/impl/bn_type_impl.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 7c938b5..9437fc3 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -472,14 +472,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_NEG;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a positive to a negative
@@ -488,20 +486,23 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_POS;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a negative to a negative
         else {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
+        
+        // zero has no sign
+        if (!abs_val_num_digits(numData)) {
+            descriptor = BN_POS;
+        }
     }
     catch(const std::exception& e) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
@@ -567,6 +568,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
                 *this = std::move(tempNum);
             }
         }
+        
+        // zero has no sign
+        if (!abs_val_num_digits(numData)) {
+            descriptor = BN_POS;
+        }
     }
     catch(const std::exception& e) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
@@ -619,6 +625,11 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
             ret.numData = std::move(mul_naive<limits_t, container_t>(numData, num.numData));
         }
         *this = std::move(ret);
+        
+        // zero has no sign
+        if (!abs_val_num_digits(numData)) {
+            descriptor = BN_POS;
+        }
     }
     catch(const std::exception& e) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
@@ -667,12 +678,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
+    if (!abs_val_num_digits(numData))
     {
+        descriptor = BN_POS;
         return *this;
     }
 
-    if (!abs_val_num_digits(numData))
+    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
         return *this;
     }
@@ -690,6 +702,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         else
         {
             numData = {bn_single{0}};
+            descriptor = BN_POS;
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From 9a7f2a04e754a6acca1aca33fbb04dfbe1b61b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 15/25] fix: compare zeroes as equal regardless of their sign

Bignum(BN_NEG, {0}) was unequal to and less than Bignum(BN_POS, {0}).
---
 include/bignum/bn_type.h           | 10 ++++++++++
 include/bignum/impl/bn_type_impl.h | 28 ++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 78cc93a..39d0a5b 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -201,6 +201,16 @@ class Bignum final {
          */
         bool isNan() const;
         
+        /**
+         * Determine if a bignum is zero, regardless of its sign or the number
+         * of zeroes it is stored with.
+         * 
+         * @return
+         * TRUE if the bignum is equal to zero,
+         * FALSE if otherwise.
+         */
+        bool isZero() const;
+        
         /**
          * Reserve a certain amount of memory for manipulating a certain amount
          * of digits
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 9437fc3..265bea4 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -181,6 +181,14 @@ inline bool Bignum<limits_t, container_t>::isNan() const {
     return descriptor == BN_NAN;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Determine if a bignum is zero.
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+inline bool Bignum<limits_t, container_t>::isZero() const {
+    return isComputable(descriptor) && !abs_val_num_digits(numData);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Resize a bignum to contain a specific number of digits
 ///////////////////////////////////////////////////////////////////////////////
@@ -285,7 +293,7 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
     if (this->descriptor != num.descriptor) {
-        return false;
+        return isZero() && num.isZero();
     }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
 }
@@ -296,7 +304,7 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
     if (this->descriptor != num.descriptor) {
-        return true;
+        return !(isZero() && num.isZero());
     }
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
 }
@@ -306,6 +314,10 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    // the sign of a zero is irrelevant
+    if (isZero() && num.isZero()) {
+        return false;
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -325,6 +337,10 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    // the sign of a zero is irrelevant
+    if (isZero() && num.isZero()) {
+        return true;
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -344,6 +360,10 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    // the sign of a zero is irrelevant
+    if (isZero() && num.isZero()) {
+        return false;
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
@@ -363,6 +383,10 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    // the sign of a zero is irrelevant
+    if (isZero() && num.isZero()) {
+        return true;
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
-- 
2.43.0


From 477a68846502afb645fa1289386dacd396cf6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 16/25] fix: order infinities and NaNs

+INF > 5 was false, 5 < -INF was false and NaN < 5 was true, as only the
(empty) digits of the special values were compared.
---
 include/bignum/impl/bn_type_impl.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 265bea4..ad44624 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -11,6 +11,18 @@
 #include "bignum/bn_multiplication.h"
 #include "bignum/bn_division.h"
 
+///////////////////////////////////////////////////////////////////////////////
+// Ordering of infinities relative to each other and to finite numbers.
+// NaNs are not ordered.
+///////////////////////////////////////////////////////////////////////////////
+inline bool bn_is_ordered(bn_desc_t a, bn_desc_t b) {
+    return a != BN_NAN && b != BN_NAN;
+}
+
+inline int bn_order(bn_desc_t desc) {
+    return (desc == BN_POS_INF) ? 1 : ((desc == BN_NEG_INF) ? -1 : 0);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Outputting to an ostream
 ///////////////////////////////////////////////////////////////////////////////
@@ -314,6 +326,10 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    if (!isComputable(this->descriptor) || !isComputable(num.descriptor)) {
+        return bn_is_ordered(this->descriptor, num.descriptor)
+            && bn_order(this->descriptor) > bn_order(num.descriptor);
+    }
     // the sign of a zero is irrelevant
     if (isZero() && num.isZero()) {
         return false;
@@ -337,6 +353,10 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    if (!isComputable(this->descriptor) || !isComputable(num.descriptor)) {
+        return bn_is_ordered(this->descriptor, num.descriptor)
+            && bn_order(this->descriptor) >= bn_order(num.descriptor);
+    }
     // the sign of a zero is irrelevant
     if (isZero() && num.isZero()) {
         return true;
@@ -360,6 +380,10 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    if (!isComputable(this->descriptor) || !isComputable(num.descriptor)) {
+        return bn_is_ordered(this->descriptor, num.descriptor)
+            && bn_order(this->descriptor) < bn_order(num.descriptor);
+    }
     // the sign of a zero is irrelevant
     if (isZero() && num.isZero()) {
         return false;
@@ -383,6 +407,10 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    if (!isComputable(this->descriptor) || !isComputable(num.descriptor)) {
+        return bn_is_ordered(this->descriptor, num.descriptor)
+            && bn_order(this->descriptor) <= bn_order(num.descriptor);
+    }
     // the sign of a zero is irrelevant
     if (isZero() && num.isZero()) {
         return true;
-- 
2.43.0


From eb0d08725182a85d7ef12723d1923c7e1e86f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 17/25] fix: propagate infinities and NaNs through arithmetic

An infinite or NaN left operand took over the descriptor of the right one, so
INF + 5 and NaN + 5 were 0; on the right they were treated as zero, so
5 + INF was 5 and 5 / INF did not terminate.
---
 include/bignum/impl/bn_type_impl.h | 54 +++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index ad44624..3a361de 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -23,6 +23,34 @@ inline int bn_order(bn_desc_t desc) {
     return (desc == BN_POS_INF) ? 1 : ((desc == BN_NEG_INF) ? -1 : 0);
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Results of operations on at least one infinity or NaN
+///////////////////////////////////////////////////////////////////////////////
+inline bn_desc_t bn_negate(bn_desc_t desc) {
+    switch (desc) {
+        case BN_POS:        return BN_NEG;
+        case BN_NEG:        return BN_POS;
+        case BN_POS_INF:    return BN_NEG_INF;
+        case BN_NEG_INF:    return BN_POS_INF;
+        default:            return desc;
+    }
+}
+
+inline bn_desc_t bn_special_sum(bn_desc_t a, bn_desc_t b) {
+    if (!bn_is_ordered(a, b) || bn_order(a) + bn_order(b) == 0) {
+        return BN_NAN;
+    }
+    return (bn_order(a) + bn_order(b) > 0) ? BN_POS_INF : BN_NEG_INF;
+}
+
+inline bn_desc_t bn_special_product(bn_desc_t a, bn_desc_t b) {
+    if (!bn_is_ordered(a, b)) {
+        return BN_NAN;
+    }
+    const bool isNeg = (a == BN_NEG || a == BN_NEG_INF) != (b == BN_NEG || b == BN_NEG_INF);
+    return isNeg ? BN_NEG_INF : BN_POS_INF;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Outputting to an ostream
 ///////////////////////////////////////////////////////////////////////////////
@@ -506,9 +534,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(bn_special_sum(descriptor, num.descriptor));
         return *this;
     }
     
@@ -576,9 +603,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(bn_special_sum(descriptor, bn_negate(num.descriptor)));
         return *this;
     }
     
@@ -646,9 +672,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor((isZero() || num.isZero()) ? BN_NAN : bn_special_product(descriptor, num.descriptor));
         return *this;
     }
 
@@ -703,9 +728,14 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isComputable(descriptor) && num.isInfinite()) {
+            numData.clear();
+            descriptor = BN_POS;
+        }
+        else {
+            setDescriptor(num.isInfinite() ? BN_NAN : bn_special_product(descriptor, num.descriptor));
+        }
         return *this;
     }
 
-- 
2.43.0


From ae72bbceb16ef4990610679d572551f4fee7b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 18/25] fix: do not store digits in infinities or NaNs on
 construction

setDescriptor() drops them as well; Bignum(BN_POS_INF, {5}) compared unequal to
any other infinity.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 3a361de..1c10d70 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -102,7 +102,7 @@ Bignum<limits_t, container_t>::Bignum(
     descriptor{desc},
     numData{}
 {
-    if (!numList.size()) {
+    if (!numList.size() || !isComputable(desc)) {
        return;
     }
 
-- 
2.43.0


From 21060624f37cd867d94e48321cca121e30544279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 19/25] fix: reset the source of a move construction like that
 of a move assignment

The moved-from number became a negative zero or remained infinite.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 1c10d70..f1c308d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -150,7 +150,7 @@ inline Bignum<limits_t, container_t>::Bignum(Bignum&& num) :
     descriptor{num.descriptor},
     numData{std::move(num.numData)}
 {
-    descriptor = num.descriptor;
+    num.descriptor = BN_POS;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3cd425f72bcc951c72cc6fd571768f1add380cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 20/25] fix: keep the sign when copying digits fails

A bad_alloc thrown by a copy assignment left the old digits with the sign (or
infinity) of the source.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index f1c308d..0834118 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -463,8 +463,8 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
 template <class limits_t, class container_t>
 inline Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator=(const Bignum& num) {
-    descriptor = num.descriptor;
     numData = num.numData;
+    descriptor = num.descriptor;
     return *this;
 }
 
-- 
2.43.0


From 9fe2729da420d5d0dc61167b3c5918e39665b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 21/25] fix: rethrow the original exception

'throw e' sliced a std::bad_alloc to std::exception.
---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 0834118..6d314d0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -583,13 +583,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -652,13 +652,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -708,13 +708,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     return *this;
@@ -787,13 +787,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From 5ab26a8fd4769d631877ab2e6691ae6df42ea4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 22/25] fix: write and read 8-bit digits as numbers

They were streamed as raw (mostly control) characters.
---
 include/bignum/impl/bn_int_type_impl.h | 19 +++++++++++++++++--
 include/bignum/impl/bn_type_impl.h     |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index a77795f..ef722ac 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -235,10 +235,25 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 ///////////////////////////////////////////////////////////////////////////////
 template <typename numType, BN_UINT64 intId>
 inline std::ostream& operator << (std::ostream& outStr, const BNIntType<numType, intId>& bni) {
-    return outStr << bni.num;
+    // promote, so that 8-bit integers are not written as characters
+    return outStr << +bni.num;
 }
 
 template <typename numType, BN_UINT64 intId>
 inline std::istream& operator >> (std::istream& inStr, BNIntType<numType, intId>& bni) {
-    return inStr >> bni.num;
+    // 8-bit integers would be read as characters
+    if (sizeof(numType) > sizeof(char)) {
+        return inStr >> bni.num;
+    }
+    
+    int n = 0;
+    if (inStr >> n) {
+        if ((int)((numType)n) == n) {
+            bni.num = (numType)n;
+        }
+        else {
+            inStr.setstate(std::ios_base::failbit);
+        }
+    }
+    return inStr;
 }
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d314d0..cdc7f2c 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -78,7 +78,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << +numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From f95ab3a9c5f33dbdfd23a734f3c43686c27feb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 23/25] fix: multiply 16-bit digit integers without signed
 overflow

65535 * 65535 overflows int, to which uint16_t is promoted.
---
 include/bignum/bn_int_type.h           |  1 +
 include/bignum/impl/bn_int_type_impl.h | 44 ++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/include/bignum/bn_int_type.h b/include/bignum/bn_int_type.h
index a403775..514e4eb 100644
--- a/include/bignum/bn_int_type.h
+++ b/include/bignum/bn_int_type.h
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <limits>
+#include <type_traits>
 
 #include "bignum/bn_setup.h"
 
diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index ef722ac..1e8146c 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -5,6 +5,15 @@
  * Created on July 18, 2014, 1:01 PM
  */
 
+///////////////////////////////////////////////////////////////////////////////
+// Type used to multiply integers: at least as wide as "int", and unsigned for
+// unsigned integers so that products are calculated modulo their width.
+///////////////////////////////////////////////////////////////////////////////
+template <typename numType>
+using bn_factor_t = typename std::conditional<
+    std::is_unsigned<numType>::value, decltype(numType() + 0u), decltype(+numType())
+>::type;
+
 ///////////////////////////////////////////////////////////////////////////////
 // Constructors
 ///////////////////////////////////////////////////////////////////////////////
@@ -150,7 +159,6 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
     // Non-Assigned arithmetic
     BN_INT_TYPE_BINARY_OP(+)
     BN_INT_TYPE_BINARY_OP(-)
-    BN_INT_TYPE_BINARY_OP(*)
     BN_INT_TYPE_BINARY_OP(/)
     BN_INT_TYPE_BINARY_OP(%)
     BN_INT_TYPE_BINARY_OP(&)
@@ -161,6 +169,29 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 
 #undef BN_INT_TYPE_BINARY_OP
 
+    // 16-bit integers are promoted to "int", which can't hold all products
+    template <typename numType, BN_UINT64 intId>
+    constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator * (const BNIntType<numType, intId>& bni) const {
+        return BNIntType<numType, intId>{(numType)((bn_factor_t<numType>)num * bni.num)};
+    }
+    
+    template <typename numType, BN_UINT64 intId>
+    constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator * (const numType& n) const {
+        return BNIntType<numType, intId>{(numType)((bn_factor_t<numType>)num * n)};
+    }
+    
+    template <typename numType, BN_UINT64 intId>
+    inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator *= (const BNIntType<numType, intId>& bni) {
+        num = (numType)((bn_factor_t<numType>)num * bni.num);
+        return *this;
+    }
+    
+    template <typename numType, BN_UINT64 intId>
+    inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator *= (const numType& n) {
+        num = (numType)((bn_factor_t<numType>)num * n);
+        return *this;
+    }
+
 ///////////////////////////////////////////////////////////////////////////////
 // Binary comparison operators
 ///////////////////////////////////////////////////////////////////////////////
@@ -201,7 +232,6 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
     // Non-Assigned arithmetic
     BN_INT_TYPE_BINARY_OP_R(+)
     BN_INT_TYPE_BINARY_OP_R(-)
-    BN_INT_TYPE_BINARY_OP_R(*)
     BN_INT_TYPE_BINARY_OP_R(/)
     BN_INT_TYPE_BINARY_OP_R(%)
     BN_INT_TYPE_BINARY_OP_R(&)
@@ -212,6 +242,16 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 
 #undef BN_INT_TYPE_BINARY_OP_R
 
+    template <typename numType, BN_UINT64 intId>
+    constexpr numType operator * (const numType& n, const BNIntType<numType, intId>& bni) {
+        return (numType)((bn_factor_t<numType>)n * bni.num);
+    }
+    
+    template <typename numType, BN_UINT64 intId>
+    inline numType& operator *= (numType& n, const BNIntType<numType, intId>& bni) {
+        return n = (numType)((bn_factor_t<numType>)n * bni.num);
+    }
+
 ///////////////////////////////////////////////////////////////////////////////
 // R-Value Binary comparison operators
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9e1e4fd3bc1eaa9e871cc3be9e91493949a8078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 24/25] fix: dividing a zero with leading zeroes leaves a
 single zero digit

---
 include/bignum/impl/bn_type_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index cdc7f2c..837c140 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -762,6 +762,11 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     if (!abs_val_num_digits(numData))
     {
+        if (numData.size() > 1)
+        {
+            numData.resize(1);
+        }
+
         descriptor = BN_POS;
         return *this;
     }
-- 
2.43.0


From 94e2bc267c3bc84edf73c5900b02eea16c25e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:17 +0000
Subject: [PATCH 25/25] fix: choose the multiplication by the longer operand's
 rounding errors

---
 include/bignum/impl/bn_multiplication_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 978a755..7282097 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -19,7 +19,9 @@ bool mul_strassen_is_exact(const container_t& a, const container_t& b) {
     static constexpr bn_u64_t MAX_SUM = (bn_u64_t)1 << 40;
     static constexpr bn_u64_t MAX_DIGIT = limits_t::SINGLE_BASE_MAX;
     
-    const bn_u64_t numSums = (a.size() < b.size()) ? a.size() : b.size();
+    // Both numbers share a single transform, the longer one determines the
+    // magnitude of its rounding errors.
+    const bn_u64_t numSums = (a.size() > b.size()) ? a.size() : b.size();
     
     return !numSums || MAX_DIGIT * MAX_DIGIT <= MAX_SUM / numSums;
 }
-- 
2.43.0


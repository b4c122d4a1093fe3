From 6ff46e7374aa6aa7e5449a9ad720c11458a2817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 01/16] fix: portable Add64/Sub64 lose the carry/borrow when
 the second operand is 2^64-1 with a carry in

---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From 0ae622df397ef2732c87ca74abcc40539d10137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 02/16] fix: portable squaring helpers
 madd1s/madd2s/madd1sb/madd2sb drop the carry out of the high word

---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..dac1543 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 1a6862f1546c9cc9562e1198d9a118fdce221609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 03/16] fix: fp6::frobeniusMap writes the wrong coefficients
 for power = 3 mod 6

---
 src/fp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a7a82a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,11 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t;
+            _negate(&t, &c.c1.c1);
+            c.c1.c1 = c.c1.c0;
+            c.c1.c0 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From f8560fd9a5ff041af57a71ed242d22823818f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 04/16] fix: fp12 Frobenius maps read past their coefficient
 table for powers of 12 and above

---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a7a82a4..925adc5 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1491,7 +1491,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1504,7 +1504,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1515,7 +1515,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1528,7 +1528,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From ef22d25fcc723d50613969024cd8f52612e79cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 05/16] fix: scalar::add stores the final carry one limb too
 high and refuses results that fit

---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From b86ff5ce32c1c0879313a788234135e847b69200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 06/16] fix: bn_divn_low divides by zero or writes out of
 bounds for divisors with zero or full top limbs

---
 src/scalar.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..a59d79b 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -235,9 +235,16 @@ uint64_t bn_rshb_low(uint64_t *c, const uint64_t *a, int size, int bits)
 
 void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int sb)
 {
-    int norm, i, n, t, sd;
+    int norm, i, n, t, sd, len;
     uint64_t carry, t1[3], t2[3];
 
+    // The divisor's leading digit must not be zero. The remainder keeps its full length.
+    len = sb;
+    while(sb > 1 && b[sb - 1] == 0)
+    {
+        sb--;
+    }
+
     // Normalize x and y so that the leading digit of y is bigger than 2^(RLC_DIG-1).
     // std::countl_zero will return 64 if uint64_t(0) is passed in. 
     // The %64 operation will handle this case.
@@ -262,6 +269,12 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
         norm = 0;
     }
 
+    // The divisor may have become longer than the dividend.
+    while(sa < sb)
+    {
+        a[sa++] = 0;
+    }
+
     n = sa - 1;
     t = sb - 1;
 
@@ -336,6 +349,10 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
     }
     // Remainder should be not be longer than the divisor.
     bn_rshb_low(d, a, sb, norm);
+    for(i = sb; i < len; i++)
+    {
+        d[i] = 0;
+    }
 }
 
 } // namespace bls12_381
-- 
2.43.0


From bbf68b9ba798f09a4d4f262a7bd14f69268e97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 07/16] fix: scalar::multiply writes past its buffer when the
 result array is too small

---
 include/bls12-381/scalar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index fabfe83..f1dda7f 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -127,6 +127,8 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
 template<size_t NC, size_t NA, size_t NB>
 std::array<uint64_t, NC> multiply(const std::array<uint64_t, NA>& a, const std::array<uint64_t, NB>& b)
 {
+    static_assert(NC >= NA + NB, "std::array c not large enough to store result!");
+
     std::array<uint64_t, NC> c;
     memset(c.data(), 0, NC * sizeof(uint64_t));
     std::array<uint64_t, NC> buffer;
-- 
2.43.0


From f137729e28d0b2689da8e3a7b2f7dba647b55f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 08/16] fix: hexToBytes reads past the end of texts shorter
 than the 0x prefix

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index a59d79b..30465f0 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 14117eb935ad026719f67d68e53f0fca0b09186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 09/16] fix: hkdf256_expand leaks its buffers when no output is
 requested

---
 src/signatures.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..4cceee9 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -98,16 +98,16 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+
     for(size_t i = 1; i <= N; i++)
     {
         if(i == 1)
-- 
2.43.0


From 2bbf8ed1e1832a5f0721efee2578aa3654e898fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 10/16] fix: g1/g2::fromCompressedBytesBE check the x
 coordinate before the Montgomery conversion

toMont reduces its input, so testing isValid() afterwards never failed and
encodings with x >= p were accepted as aliases of x - p.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..29f6604 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From 41255f69f571a7bde8f53a35e20902fc44dc13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 11/16] fix: g1/g2::fromCompressedBytesBE reject infinity
 encodings with other bits set

The infinity flag made every byte string starting with 11 decode to the
neutral element, so infinity had about 2^381 encodings.
---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 29f6604..dd9c5ee 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the canonical encoding of infinity has no other bit set
+        if(in[0] != 0xC0 || std::any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the canonical encoding of infinity has no other bit set
+        if(in[0] != 0xC0 || std::any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From 9d30aef1012330b4f416a4ad48b39f7399fee118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 12/16] fix: g1/g2::toCompressedBytesBE recognise every
 representation of infinity

affine() leaves the neutral element as it is, with arbitrary x and y (zero()
is (0, 1, 0)), so the test on x and y missed it and a finite-looking encoding
that does not decode was written.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index dd9c5ee..c662003 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -186,7 +186,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -909,7 +909,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From ed99783c6aa4ca25d3bd039c332d409cc873f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 13/16] fix: declare addition_step and pre_compute as they are
 defined

---
 include/bls12-381/pairing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/pairing.hpp b/include/bls12-381/pairing.hpp
index ab841c6..bd18da8 100644
--- a/include/bls12-381/pairing.hpp
+++ b/include/bls12-381/pairing.hpp
@@ -17,8 +17,8 @@ class g2;
 namespace pairing
 {
     void doubling_step(std::array<fp2, 3>& coeff, g2& r);
-    void addition_step(std::array<fp2, 3>& coeff, g2& r, g2& tp);
-    void pre_compute(std::array<std::array<fp2, 3>, 68>& ellCoeffs, g2& twistPoint);
+    void addition_step(std::array<fp2, 3>& coeff, g2& r, const g2& tp);
+    void pre_compute(std::array<std::array<fp2, 3>, 68>& ellCoeffs, const g2& twistPoint);
     fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()> yield);
     void final_exponentiation(fp12& f);
     fp12 calculate(std::span<const std::tuple<g1, g2>> pairs, std::function<void()> yield = std::function<void()>());
-- 
2.43.0


From fae7acb13ec322ecd4a56793dcb25720abfd8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 14/16] fix: miller_loop of an empty list reads out of bounds

---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0


From 551e6ee1990a7cf4b14187eb48870913ff6236e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 15/16] fix: g1::mapToCurve returns a point off the curve for
 inputs mapped into the kernel of the isogeny

---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index c662003..02159d6 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    if(x.isZero() && y.isZero())
+    {
+        // (x, y) was in the kernel of the isogeny: its image is the point at infinity
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From d2a258f284d00ee2040e9dd2280e3aff04818b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 16/16] fix: fromMessage uses an uninitialised buffer for tags
 longer than 255 bytes

---
 src/signatures.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 4cceee9..6fb6a78 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -500,7 +500,20 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    if(dst.length() > 255)
+    {
+        // RFC 9380, section 5.3.3: a longer tag is replaced by its hash
+        uint8_t dstHash[32];
+        sha256 sha;
+        sha.update("H2C-OVERSIZE-DST-");
+        sha.update(dst);
+        sha.digest(dstHash);
+        xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), dstHash, sizeof(dstHash));
+    }
+    else
+    {
+        xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    }
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


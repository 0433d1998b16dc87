From 5f33761eac2647e1dc3982146d3cb4d00a6f197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 01/87] fix: avoid left shift of negative values in BYInverter

---
 tachyon/math/base/byinverter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/byinverter.h b/tachyon/math/base/byinverter.h
index 3a4de7d..7c3b76d 100644
--- a/tachyon/math/base/byinverter.h
+++ b/tachyon/math/base/byinverter.h
@@ -338,8 +338,9 @@ class BYInverter {
       steps -= zeros;
       delta += zeros;
       g >>= zeros;
-      t[0][0] <<= zeros;
-      t[0][1] <<= zeros;
+      // NOTE: Left shift of a negative value is undefined before C++20.
+      t[0][0] = static_cast<int64_t>(static_cast<uint64_t>(t[0][0]) << zeros);
+      t[0][1] = static_cast<int64_t>(static_cast<uint64_t>(t[0][1]) << zeros);
 
       if (steps == 0) {
         break;
-- 
2.43.0


From 3a97417695dfab84c083f4e683ea70ff61dd8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 02/87] fix: give every thread its own random bit generator

---
 tachyon/base/random.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/random.cc b/tachyon/base/random.cc
index ecc69b4..03c7dc3 100644
--- a/tachyon/base/random.cc
+++ b/tachyon/base/random.cc
@@ -3,7 +3,9 @@
 namespace tachyon::base {
 
 absl::BitGen& GetAbslBitGen() {
-  static absl::BitGen bitgen;
+  // NOTE: |absl::BitGen| is not thread-safe and |Random()| is called from
+  // parallel regions.
+  thread_local absl::BitGen bitgen;
   return bitgen;
 }
 
-- 
2.43.0


From 73a1647b8745b8f8e1bd639bc027755241dd7dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/87] fix: keep non-asm 64-bit prime fields in montgomery
 form

Prime fields bigger than 32 bits that aren't backed by asm are implemented
by the fallback, which always uses the montgomery form, but the generated
constants of Goldilocks were not in that form.
---
 .../prime_field_generator/prime_field_generator.cc        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 7400ef2..aa9a93f 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -498,6 +498,14 @@ int RealMain(int argc, char** argv) {
     return 1;
   }
 
+  // NOTE: When the asm implementation is not available, prime fields bigger
+  // than 32 bits are implemented by |prime_field_fallback.h|, which supports
+  // only the montgomery form.
+  if (!config.use_asm && config.reduce32.empty() && config.reduce64.empty() &&
+      GetNumBits(math::gmp::FromDecString(config.modulus)) > 32) {
+    config.use_montgomery = true;
+  }
+
   if (config.use_montgomery) {
     if (!config.reduce32.empty()) {
       tachyon_cerr << "reduce32 and use_montgomery shouldn't be used together"
-- 
2.43.0


From 3d5a151a41ff7d2e584996949e34bfebcd9e2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 04/87] fix: avoid shifting by the word width when reversing
 zero bits

---
 tachyon/base/bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/base/bits.h b/tachyon/base/bits.h
index fa454f5..56e182a 100644
--- a/tachyon/base/bits.h
+++ b/tachyon/base/bits.h
@@ -165,6 +165,8 @@ TACHYON_EXPORT uint64_t BitRev(uint64_t n);
 
 // Reverses the |bit_len| least significant bits of |x|.
 inline size_t ReverseBitsLen(size_t x, size_t bit_len) {
+  // NOTE: Shifting by the width of the type is undefined.
+  if (bit_len == 0) return 0;
   return BitRev(x) >> (sizeof(size_t) * 8 - bit_len);
 }
 
-- 
2.43.0


From b5f13d2b55e5bb2529b3ca979869b84f4b25a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 05/87] fix: emit plain roots of unity for non-montgomery prime
 fields

---
 .../prime_field_generator/prime_field_generator.cc    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index aa9a93f..709f078 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -261,6 +261,11 @@ int GenerationConfig::GenerateConfigHdr() const {
     RemoveOptionalLines(tpl_lines, "!kUseAsm", !use_asm);
   }
 
+  auto to_field_string = [this, &m](const mpz_class& v) {
+    return use_montgomery ? math::MpzClassToMontString(v, m)
+                          : math::MpzClassToString(v);
+  };
+
   bool has_two_adic_root_of_unity = !subgroup_generator.empty();
   replacements["%{has_two_adic_root_of_unity}"] =
       base::BoolToString(has_two_adic_root_of_unity);
@@ -270,7 +275,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   if (has_two_adic_root_of_unity) {
     subgroup_generator_mpz = math::gmp::FromDecString(subgroup_generator);
     replacements["%{subgroup_generator}"] =
-        math::MpzClassToMontString(subgroup_generator_mpz, m);
+        to_field_string(subgroup_generator_mpz);
 
     // 1) 2ˢ * t = m - 1,
     // According to Fermat's Little Theorem, the following equations hold:
@@ -286,7 +291,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{two_adicity}"] =
         base::NumberToString(math::ComputeAdicity(2, m - mpz_class(1)));
     replacements["%{two_adic_root_of_unity}"] =
-        math::MpzClassToMontString(two_adic_root_of_unity, m);
+        to_field_string(two_adic_root_of_unity);
   }
 
   bool has_large_subgroup_root_of_unity = !small_subgroup_base.empty();
@@ -318,7 +323,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{small_subgroup_base}"] = small_subgroup_base;
     replacements["%{small_subgroup_adicity}"] = small_subgroup_adicity;
     replacements["%{large_subgroup_root_of_unity}"] =
-        math::MpzClassToMontString(large_subgroup_root_of_unity, m);
+        to_field_string(large_subgroup_root_of_unity);
   }
 
   tpl_content = absl::StrJoin(tpl_lines, "\n");
-- 
2.43.0


From a621bbf425bf2d4e36755a4faa8d2e90e36d19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 06/87] fix: parse only the given string_view into mpz, which
 needn't be null-terminated

---
 tachyon/math/base/gmp/gmp_util.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/gmp/gmp_util.cc b/tachyon/math/base/gmp/gmp_util.cc
index c0ecea5..09c0477 100644
--- a/tachyon/math/base/gmp/gmp_util.cc
+++ b/tachyon/math/base/gmp/gmp_util.cc
@@ -1,5 +1,7 @@
 #include "tachyon/math/base/gmp/gmp_util.h"
 
+#include <string>
+
 #include "absl/base/call_once.h"
 
 #include "tachyon/base/logging.h"
@@ -34,7 +36,9 @@ bool ParseIntoMpz(std::string_view str, int base, mpz_class* out) {
     base::ConsumePrefix0x(&str);
   }
 
-  return out->set_str(str.data(), base) == 0;
+  // NOTE: |str| isn't necessarily null-terminated.
+  if (str.find('\0') != std::string_view::npos) return false;
+  return out->set_str(std::string(str), base) == 0;
 }
 
 void MustParseIntoMpz(std::string_view str, int base, mpz_class* out) {
-- 
2.43.0


From 0123e3fddc0a55d78609a0693b7ca42d27e104ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 07/87] fix: extract a whole limb from a BigInt without
 shifting by its width

---
 tachyon/math/base/big_int.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..bf0be61 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1026,12 +1026,13 @@ struct BigInt {
     size_t bit_idx = bit_offset % bits;
 
     T ret;
-    if (bit_idx < bits - bit_count || limb_idx == nums - 1) {
+    if (bit_idx <= bits - bit_count || limb_idx == nums - 1) {
       ret = limbs_ptr[limb_idx] >> bit_idx;
     } else {
       ret = (limbs_ptr[limb_idx] >> bit_idx) |
             (limbs_ptr[1 + limb_idx] << (bits - bit_idx));
     }
+    if (bit_count == bits) return ret;
     T mask = (T{1} << bit_count) - T{1};
     return ret & mask;
   }
-- 
2.43.0


From 3097113a6bb10345ed26b6d510830bf40f1ca8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 08/87] fix: keep the carry when computing the NAF of a BigInt

---
 tachyon/math/base/big_int.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index bf0be61..1e8556d 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -879,7 +879,8 @@ struct BigInt {
     BigInt v(*this);
     std::vector<int8_t> ret;
     ret.reserve(8 * sizeof(uint64_t) * N);
-    while (!v.IsZero()) {
+    uint64_t carry = 0;
+    while (!v.IsZero() || carry) {
       int8_t z;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
       // if v₀ == 0:
@@ -896,13 +897,17 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      if (carry) {
+        v.biggest_limb() |= uint64_t{1} << 63;
+        carry = 0;
+      }
     }
     return ret;
   }
-- 
2.43.0


From ffc255ec2ac665f87774962a53ccfb573a7f6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 09/87] fix: make the KoalaBear4 headers include their own
 internals

---
 tachyon/math/finite_fields/koala_bear/koala_bear4.h        | 4 ++--
 tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index 7371e9a..caa10f9 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,8 +1,8 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/koala_bear4.h"
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
diff --git a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
index 09e3c97..7a6f451 100644
--- a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
@@ -1,7 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
-- 
2.43.0


From d8b11824e46019b3da2c410d9d0b91de306e8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 10/87] fix: zero the higher coefficients of an extension field
 element made from an integer

---
 tachyon/math/finite_fields/cubic_extension_field.h     | 3 ++-
 tachyon/math/finite_fields/quadratic_extension_field.h | 3 ++-
 tachyon/math/finite_fields/quartic_extension_field.h   | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/cubic_extension_field.h b/tachyon/math/finite_fields/cubic_extension_field.h
index a094e52..bc3e441 100644
--- a/tachyon/math/finite_fields/cubic_extension_field.h
+++ b/tachyon/math/finite_fields/cubic_extension_field.h
@@ -34,7 +34,8 @@ class CubicExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr CubicExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit CubicExtensionField(T value) : c0_(value) {}
+  constexpr explicit CubicExtensionField(T value)
+      : c0_(value), c1_(BaseField::Zero()), c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()), c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..dc6f39b 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -35,7 +35,8 @@ class QuadraticExtensionField
   constexpr QuadraticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuadraticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuadraticExtensionField(T value)
+      : c0_(value), c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quartic_extension_field.h b/tachyon/math/finite_fields/quartic_extension_field.h
index 346a584..3a4b357 100644
--- a/tachyon/math/finite_fields/quartic_extension_field.h
+++ b/tachyon/math/finite_fields/quartic_extension_field.h
@@ -30,7 +30,11 @@ class QuarticExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr QuarticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuarticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuarticExtensionField(T value)
+      : c0_(value),
+        c1_(BaseField::Zero()),
+        c2_(BaseField::Zero()),
+        c3_(BaseField::Zero()) {}
   constexpr explicit QuarticExtensionField(const BaseField& c0)
       : c0_(c0),
         c1_(BaseField::Zero()),
-- 
2.43.0


From 7232846b5f5d443040f0de47537cde70ecf9007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 11/87] fix: multiply an extension field element by itself in
 place correctly

---
 tachyon/math/finite_fields/quadratic_extension_field.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index dc6f39b..48edb40 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -345,11 +345,10 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
-      // c.c1 = a.c0 + a.c1
-      c.c1_ = a.c0_ + a.c1_;
       // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
       // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
+      // NOTE: |b| may alias |c|, so both sums are computed before writing.
+      c.c1_ = (a.c0_ + a.c1_) * (b.c0_ + b.c1_);
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
       c.c1_ -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-- 
2.43.0


From 2c6ab2839c873306cb3f2eeb1ca3731660bc951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 12/87] fix: compute the Frobenius coefficients of a quartic
 over quadratic extension from its own non-residue

---
 tachyon/math/finite_fields/fp4.h              | 26 +++++++++----------
 .../ext_field_generator.cc                    |  3 +--
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/tachyon/math/finite_fields/fp4.h b/tachyon/math/finite_fields/fp4.h
index 82e3508..2c4d9cd 100644
--- a/tachyon/math/finite_fields/fp4.h
+++ b/tachyon/math/finite_fields/fp4.h
@@ -43,17 +43,15 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
  private:
   static void DoInit() {
-    using BaseFieldConfig = typename BaseField::Config;
-    // x⁴ = q = |BaseFieldConfig::kNonResidue|
-
     Config::Init();
+    // x² = q = |Config::kNonResidue|
 
     // αᴾ = (α₀ + α₁x)ᴾ
     //    = α₀ᴾ + α₁ᴾxᴾ
     //    = ᾱ₀ + ᾱ₁xᴾ <- conjugate
     //    = ᾱ₀ + ᾱ₁xᴾ⁻¹x
-    //    = ᾱ₀ + ᾱ₁(x⁴)^((p - 1) / 4) * x
-    //    = ᾱ₀ - ᾱ₁ωx, where ω is a quartic root of unity.
+    //    = ᾱ₀ + ᾱ₁(x²)^((P - 1) / 2) * x
+    //    = ᾱ₀ + ᾱ₁ωx, where ω = q^((P - 1) / 2).
 
     using UnpackedBasePrimeField = MaybeUnpack<BasePrimeField>;
 
@@ -75,29 +73,29 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
 #undef SET_M
 
-#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(4)
+#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(2)
 
-    // exp₁ = (m₁ - 1) / 4 = (P¹ - 1) / 4
+    // exp₁ = (m₁ - 1) / 2 = (P¹ - 1) / 2
     SET_EXP_GMP(1);
-    // exp₂ = (m₂ - 1) / 4 = (P² - 1) / 4
+    // exp₂ = (m₂ - 1) / 2 = (P² - 1) / 2
     SET_EXP_GMP(2);
-    // exp₃ = (m₃ - 1) / 4 = (P³ - 1) / 4
+    // exp₃ = (m₃ - 1) / 2 = (P³ - 1) / 2
     SET_EXP_GMP(3);
 
 #undef SET_EXP_GMP
 
-    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 4) = 1
+    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 2) = 1
     Config::kFrobeniusCoeffs[0] = FrobeniusCoefficient::One();
 #define SET_FROBENIUS_COEFF(d)                \
   BigInt<d * N> exp##d(0);                    \
   gmp::CopyLimbs(exp##d##_gmp, exp##d.limbs); \
-  Config::kFrobeniusCoeffs[d] = BaseFieldConfig::kNonResidue.Pow(exp##d)
+  Config::kFrobeniusCoeffs[d] = Config::kNonResidue.Pow(exp##d)
 
-    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 4) = ω
+    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 2) = ω
     SET_FROBENIUS_COEFF(1);
-    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 4)
+    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 2)
     SET_FROBENIUS_COEFF(2);
-    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 4)
+    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 2)
     SET_FROBENIUS_COEFF(3);
 
 #undef SET_FROBENIUS_COEFF
diff --git a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
index 1860e2f..f302de2 100644
--- a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
@@ -119,8 +119,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   }
 
   replacements["%{frobenius_coefficient}"] =
-      ((degree == 4 && base_field_degree == 2) ||
-       (degree == 6 && base_field_degree == 3) || degree == 12)
+      ((degree == 6 && base_field_degree == 3) || degree == 12)
           ? "typename BaseField::BaseField"
           : "BaseField";
 
-- 
2.43.0


From c89e5fa6f48b45b5e8bf51d26886bd9773c0d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 13/87] fix: pad the hex text of a 64-bit binary field to 16
 digits

Padding to 8 digits aborted on every value of more than 32 bits.
---
 tachyon/math/finite_fields/binary_fields/binary_field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/binary_fields/binary_field.h b/tachyon/math/finite_fields/binary_fields/binary_field.h
index 56f87fd..c572e6c 100644
--- a/tachyon/math/finite_fields/binary_fields/binary_field.h
+++ b/tachyon/math/finite_fields/binary_fields/binary_field.h
@@ -206,7 +206,7 @@ class BinaryField final : public FiniteField<BinaryField<_Config>> {
     if constexpr (kBits <= 64) {
       std::string str = base::HexToString(value_);
       if (pad_zero) {
-        str = base::ToHexStringWithLeadingZero(str, 8);
+        str = base::ToHexStringWithLeadingZero(str, kBits <= 32 ? 8 : 16);
       }
       return base::MaybePrepend0x(str);
     } else {
-- 
2.43.0


From 8ce5ba2e07559bdc6de37877bff4c92931ce54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 14/87] fix: return no extended packed powers when none are
 asked for

A size of 0 wrapped around and appended powers until memory ran out.
---
 tachyon/math/finite_fields/extension_field_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/finite_fields/extension_field_base.h b/tachyon/math/finite_fields/extension_field_base.h
index b3c06bd..b997c23 100644
--- a/tachyon/math/finite_fields/extension_field_base.h
+++ b/tachyon/math/finite_fields/extension_field_base.h
@@ -93,6 +93,7 @@ class ExtensionFieldBase {
     // |ret[i]| = [ b⁸ⁱ, b⁸ⁱ⁺¹, ..., b⁸ⁱ⁺⁶, b⁸ⁱ⁺⁷ ], where b is an extension
     // field of |base|.
     std::vector<ExtendedPackedField> ret;
+    if (size == 0) return ret;
     ret.reserve(size);
     ret.emplace_back(first_n_powers);
     for (size_t i = 0; i < size - 1; ++i) {
-- 
2.43.0


From 5edec7fd12ab72c3ff85ab01a8ad5652ff9a10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 15/87] fix: generate compilable headers for curves without GLV
 coefficients

The generator dropped the HasGLVCoefficients markers only when a curve had
GLV coefficients, and kept kLambda/kGLVCoeffs outside of them, so the pallas
and vesta headers came out with the template markers in them.
---
 .../elliptic_curves/short_weierstrass/generator/cpu.h.tpl   | 6 +++---
 .../short_weierstrass/generator/generator.cc                | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..a9678c7 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -37,9 +37,9 @@ class %{class}CurveConfig {
   static Point2<BaseField> kGenerator;
 %{if HasGLVCoefficients}
   static BaseField kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
   static ScalarField kLambda;
   static mpz_class kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
   static void Init() {
     static absl::once_flag once;
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
@@ -74,11 +74,11 @@ Point2<BaseField> %{class}CurveConfig<BaseField, ScalarField>::kGenerator;
 %{if HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 BaseField %{class}CurveConfig<BaseField, ScalarField>::kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 ScalarField %{class}CurveConfig<BaseField, ScalarField>::kLambda;
 template <typename BaseField, typename ScalarField>
 mpz_class %{class}CurveConfig<BaseField, ScalarField>::kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
 using %{class}Curve = SWCurve<%{class}CurveConfig<%{base_field}, %{scalar_field}>>;
 using %{class}AffinePoint = AffinePoint<%{class}Curve>;
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..b8e525a 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,9 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
+
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From b08cf396a9d630e3ae1a32c5b55c5ed21423f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:12 +0000
Subject: [PATCH 16/87] fix: Jacobian doubling on curves with a != 0 computed
 Z3 = 2(Y1 + Z1)

It must be Z3 = 2 * Y1 * Z1.
---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From af59b2ea071f7dfff6abf6a30fa0ad327014f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 17/87] fix: a PointXYZZ with ZZ = 1 and ZZZ = -1 converted to
 the negated point

ZZ = 1 leaves Z = 1 or Z = -1; only when ZZZ is one as well may x and y be
taken as they are.
---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From 3b83fe623b6ff99664f880146d551bf087b465dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 18/87] fix: GLV multiplication misaligned scalar halves of
 different limb counts

The scan started at the top limb of k1 and of k2 separately, so whenever the
two halves do not fill the same number of 64-bit limbs (e.g. k = lambda, where
k1 = 0) the product was wrong.
---
 tachyon/math/elliptic_curves/msm/glv.h | 40 +++++++++++---------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..4c4eee4 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,7 +6,10 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
-#include "tachyon/math/base/bit_iterator.h"
+#include <stddef.h>
+
+#include <algorithm>
+
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
 #include "tachyon/math/elliptic_curves/semigroups.h"
@@ -84,36 +87,27 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| may have different lengths, so both are scanned from
+    // the most significant bit of the longer one.
+    const mpz_class& k1 = result.k1.abs_value;
+    const mpz_class& k2 = result.k2.abs_value;
+    size_t num_bits = std::max(BitTraits<mpz_class>::GetNumBits(k1),
+                               BitTraits<mpz_class>::GetNumBits(k2));
 
     RetPoint ret = RetPoint::Zero();
-    bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
-      skip_zeros = false;
+    for (size_t i = num_bits; i-- > 0;) {
+      bool k1_bit = BitTraits<mpz_class>::TestBit(k1, i);
+      bool k2_bit = BitTraits<mpz_class>::TestBit(k2, i);
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (k1_bit) {
+        if (k2_bit) {
           ret += b1b2;
         } else {
           ret += b1;
         }
-      } else {
-        if (*(k2_it)) {
-          ret += b2;
-        }
+      } else if (k2_bit) {
+        ret += b2;
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From 659b476a627ed47da07045b7c9f191b9cef590cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 19/87] fix: FFT after a coset LDE of the same size used a
 twiddle table that was never completed

Radix2TwiddleCache::GetItem inserted the complete item over the existing
packed-only one, which insert() ignores. Fill the missing vectors in place,
and initialize |packed_vec_only| for a domain of size 1.
---
 .../univariate/radix2_twiddle_cache.h           | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..3e4c182 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -34,7 +34,7 @@ class Radix2TwiddleCache {
     // For all finite fields
     std::vector<std::vector<F>> roots_vec;
     std::vector<std::vector<F>> inv_roots_vec;
-    bool packed_vec_only;
+    bool packed_vec_only = false;
 
     // clang-format off
     // Precompute |roots_vec| and |inv_roots_vec| for |OutInHelper()| and |InOutHelper()|.
@@ -98,7 +98,15 @@ class Radix2TwiddleCache {
       roots_vec[domain->log_size_of_group() - 1] = std::move(largest);
       inv_roots_vec[0] = std::move(largest_inv);
 
-      if (packed_vec_only) return;
+      if (!packed_vec_only) FillRootsVec(domain);
+    }
+
+    // Fill the vectors of |roots_vec| and |inv_roots_vec| that are skipped if
+    // |packed_vec_only| is true. The largest ones are not touched, so that this
+    // can be done while they are being used.
+    template <typename Domain>
+    void FillRootsVec(const Domain* domain) {
+      packed_vec_only = false;
 
       // Prepare space in each vector for the others.
       size_t size = domain->size() / 2;
@@ -128,12 +136,13 @@ class Radix2TwiddleCache {
     absl::MutexLock lock(&twiddle_cache->mutex_);
     auto it = twiddle_cache->items_.find(
         std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
           it,
           std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
                          std::make_unique<Item>(domain, packed_vec_only)));
+    } else if (it->second->packed_vec_only && !packed_vec_only) {
+      it->second->FillRootsVec(domain);
     }
     return it->second.get();
   }
-- 
2.43.0


From d61cf2c22e1140d2a1c585cd6df4c071a9852572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 20/87] fix: mixed radix FFT overwrote the base term of a
 non-binary butterfly

---
 .../polynomials/univariate/mixed_radix_evaluation_domain.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..4d1fe90 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,8 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            // NOTE: This must be a copy since |a.at(k + j)| is overwritten below.
+            F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From 8ce73b18946792e3f27f38be4d35d8d2b8f59438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 21/87] fix: CosetLDEBatch on a const matrix ignored
 |reverse_at_last|

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From 8c5c27ba00fc70fb4343c330975e51e54cca2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 22/87] fix: EvaluateFilterPolynomial ignored the offset of a
 subdomain coset

---
 .../math/polynomials/univariate/univariate_evaluation_domain.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..f3ddee9 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -426,7 +426,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
           EvaluateVanishingPolynomial(tau) /
           (size_as_field_element_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 0c8ff7d96e2d8a672870890bebf0870ad9d8ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 23/87] fix: folding a dense polynomial with an odd number of
 coefficients read out of bounds

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From 675fd4014e93f97b5a348df827d6d3581d2ebab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 24/87] fix: dividing a zero sparse polynomial by zero
 succeeded

---
 .../polynomials/univariate/univariate_polynomial_ops.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index ed8e669..665476e 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -741,9 +741,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Div(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return UnivariatePolynomial<D>::Zero();
-    }
     return self.ToDense() / other;
   }
 
@@ -751,9 +748,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Mod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return other.ToDense();
-    }
     return self.ToDense() % other;
   }
 
@@ -761,10 +755,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<DivResult<UnivariatePolynomial<D>>> DivMod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return DivResult<UnivariatePolynomial<D>>{UnivariatePolynomial<D>::Zero(),
-                                                other.ToDense()};
-    }
     return self.ToDense().DivMod(other);
   }
 
-- 
2.43.0


From 4e6803dd7d815b5b439432ee66d95d4b94fdfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 25/87] fix: operator%= of a univariate polynomial could not be
 instantiated

---
 tachyon/math/polynomials/univariate/univariate_polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial.h b/tachyon/math/polynomials/univariate/univariate_polynomial.h
index b5ba41f..7d16103 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial.h
@@ -281,7 +281,8 @@ class UnivariatePolynomial final
   }
 
   template <typename Coefficients2>
-  constexpr auto& operator%=(const UnivariatePolynomial<Coefficients2>& other) {
+  [[nodiscard]] constexpr auto operator%=(
+      const UnivariatePolynomial<Coefficients2>& other) {
     return ModInPlace(other);
   }
 
-- 
2.43.0


From 3cb9de13f52292441064a4b80d8706c218656a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 26/87] fix: evaluating a sparse polynomial reduced its degrees
 modulo the field characteristic

---
 .../polynomials/univariate/univariate_sparse_coefficients.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 4748e1d..364c6d7 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -26,6 +26,7 @@
 #include "tachyon/base/optional.h"
 #include "tachyon/base/ranges/algorithm.h"
 #include "tachyon/base/strings/string_util.h"
+#include "tachyon/math/base/big_int.h"
 #include "tachyon/math/polynomials/univariate/support_poly_operators.h"
 
 namespace tachyon {
@@ -219,7 +220,7 @@ class UnivariateSparseCoefficients {
 
     F sum = F::Zero();
     for (const Term& term : terms_) {
-      sum += F::PowWithTable(powers_of_2, F(term.degree).ToBigInt()) *
+      sum += F::PowWithTable(powers_of_2, BigInt<1>(term.degree)) *
              term.coefficient;
     }
     return sum;
-- 
2.43.0


From 691b11d0733d150502da18059ad687edf30fed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 27/87] fix: different monomials of a multivariate polynomial
 compared as equivalent

Literal::operator< only looked at the last element, so x0*x2 and x1*x2 (or
x0*x1 and x0^2*x1) were merged into one term by addition and subtraction, and
reading the last element of an empty literal was undefined.
---
 .../multivariate/multivariate_sparse_coefficients.h    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..73e6062 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -81,11 +81,13 @@ class MultivariateSparseCoefficients {
     }
 
     bool operator<(const Literal& other) const {
-      if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
-      } else {
-        return elements.back() < other.elements.back();
+      // All the constants are equivalent and come first.
+      if (Degree() == 0 || other.Degree() == 0) {
+        return Degree() < other.Degree();
       }
+      return std::lexicographical_compare(
+          elements.rbegin(), elements.rend(), other.elements.rbegin(),
+          other.elements.rend());
     }
     bool operator==(const Literal& other) const {
       return (Degree() == 0 && other.Degree() == 0) ||
-- 
2.43.0


From b7326fa9ec62ea1596359b78b60bd872616b5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 28/87] fix: sums and differences of multivariate polynomials
 lost the number of variables

The result could not be evaluated at any point.
---
 .../math/polynomials/multivariate/multivariate_polynomial_ops.h | 2 ++
 .../polynomials/multivariate/multivariate_sparse_coefficients.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..201fc98 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -149,6 +149,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 73e6062..140589d 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -348,7 +348,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From 95ac23e3b28074a197180cc2e84dca97a1e66478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 29/87] fix: multivariate polynomials without terms read past
 the end of their terms

Compact() runs on the empty list that a - a leaves and Degree() is called on
the zero polynomial.
---
 .../multivariate/multivariate_sparse_coefficients.h      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 140589d..b660fb4 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -265,8 +265,12 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    // The terms are not ordered by their degrees.
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
@@ -303,6 +307,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From 06d8c5c6aa91869d0efa40fa5065173845d7dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 30/87] fix: accessors of a multivariate polynomial could not
 be instantiated

---
 .../multivariate/multivariate_sparse_coefficients.h       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index b660fb4..74cc6b0 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -237,9 +237,9 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F& at(const Literal& literal) {
-    const F* ptr = const_cast<F*>(std::as_const(*this).GetCoefficient(literal));
-    if (ptr) return *ptr;
-    return kZero;
+    F* ptr = const_cast<F*>(std::as_const(*this).GetCoefficient(literal));
+    CHECK(ptr);
+    return *ptr;
   }
 
   constexpr const F& at(const Literal& literal) const {
@@ -254,7 +254,7 @@ class MultivariateSparseCoefficients {
 
   constexpr const F& GetLeadingCoefficient() const {
     if (IsZero()) return kZero;
-    return terms_.begin().coefficient;
+    return terms_.back().coefficient;
   }
 
   constexpr bool IsZero() const { return terms_.empty(); }
-- 
2.43.0


From d58ff78ab167c9e327c6203f229106d8379ca98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 31/87] fix: evaluating a constant term of a multivariate
 polynomial read a coordinate

A constant may be evaluated at a point without coordinates.
---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 74cc6b0..01b5f91 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -130,6 +130,7 @@ class MultivariateSparseCoefficients {
                             const Point& points) {
       return std::accumulate(elements.begin(), elements.end(), F::One(),
                              [&points](F& acc, const Element& elem) {
+                               if (elem.exponent == 0) return acc;
                                return acc *=
                                       points[elem.variable].Pow(elem.exponent);
                              });
-- 
2.43.0


From 180b7e10a729a9f3309a1fcc1661838b0afe6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:48 +0000
Subject: [PATCH 32/87] fix: sumcheck proving keys compared their multilinear
 evaluations with themselves

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From 17d5182480214ce2dba0c5de92eb958a68cea48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 33/87] fix: a rational field element with a numerator of one
 was taken for one

IsOne() and IsMinusOne() returned true for 1/d and -1/d with any d.
---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..5506088 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From f0e6843b4d138ed463e9c8f45aa36efb08a6c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 34/87] fix: BatchEvaluate of rational field elements ignored
 its coefficient

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 5506088..c55d39d 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](absl::Span<F> chunk,
+                                               size_t chunk_offset,
+                                               size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From 997d7bee46323024760b250500341b7a0760b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 35/87] fix: the product of a matrix and a vector had the size
 of the vector

A matrix with more rows than columns wrote past the end of the result.
---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 40df77e7aa2e0205263b1d6b3407aa792d9f5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 36/87] fix: MaxCols() of sparse matrices read past empty rows
 and empty matrices

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..61271c5 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +248,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From c1b29a9a1c7a398ef30f83db254c848bc4dc6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 37/87] fix: include an existing header from
 poseidon2_bls12_381.h

---
 .../hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
index 7d91c1d..f728405 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
@@ -4,7 +4,7 @@
 #include <array>
 
 #include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_param_traits_forward.h"
-#include "tachyon/math/elliptic_curves/bls12/bls12_318/fr.h"
+#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
 
 namespace tachyon::crypto {
 
-- 
2.43.0


From a76d7be96363c3967860191c5503adef2ca971a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 38/87] fix: permute between squeezed blocks when kRate
 elements remain

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..68c7ca4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,7 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From 0df4a99635337eb85af263599476b336d8037126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 39/87] fix: list all 24 internal diagonal elements of
 Poseidon2 BabyBear width 24

---
 .../param_traits/poseidon2_baby_bear.h        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
index 372fe66..09e25c3 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
@@ -37,14 +37,18 @@ struct Poseidon2ParamsTraits<math::BabyBear, 23, 7> {
   constexpr static std::array<math::BabyBear, 24>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::BabyBear{0x0a632d94}, math::BabyBear{0x6db657b7},
-        math::BabyBear{0x56fbdc9e}, math::BabyBear{0x052b3d8a},
-        math::BabyBear{0x33745201}, math::BabyBear{0x5c03108c},
-        math::BabyBear{0x0beba37b}, math::BabyBear{0x258c2e8b},
-        math::BabyBear{0x12029f39}, math::BabyBear{0x694909ce},
-        math::BabyBear{0x6d231724}, math::BabyBear{0x21c3b222},
-        math::BabyBear{0x3c0904a5}, math::BabyBear{0x01d6acda},
-        math::BabyBear{0x27705c83}, math::BabyBear{0x5231c802},
+        math::BabyBear{0x409133f0}, math::BabyBear{0x1667a8a1},
+        math::BabyBear{0x06a6c7b6}, math::BabyBear{0x6f53160e},
+        math::BabyBear{0x273b11d1}, math::BabyBear{0x03176c5d},
+        math::BabyBear{0x72f9bbf9}, math::BabyBear{0x73ceba91},
+        math::BabyBear{0x5cdef81d}, math::BabyBear{0x01393285},
+        math::BabyBear{0x46daee06}, math::BabyBear{0x065d7ba6},
+        math::BabyBear{0x52d72d6f}, math::BabyBear{0x05dd05e0},
+        math::BabyBear{0x3bab4b63}, math::BabyBear{0x6ada3842},
+        math::BabyBear{0x2fc5fbec}, math::BabyBear{0x770d61b0},
+        math::BabyBear{0x5715aae9}, math::BabyBear{0x03ef0e90},
+        math::BabyBear{0x75b6c770}, math::BabyBear{0x242adf5f},
+        math::BabyBear{0x00d0ca4c}, math::BabyBear{0x36c0e388},
     };
   }
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
-- 
2.43.0


From 84da0019f3c69fe1b3f38c2a786308c40c419670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 40/87] fix: make the Poseidon sponge's SqueezeBytes and
 SqueezeBits compile

---
 .../sponge/poseidon/poseidon_sponge_base.h    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index 68c7ca4..13aa8bd 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -57,36 +57,40 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
 
   std::vector<uint8_t> SqueezeBytes(SpongeState<Params>& state,
                                     size_t num_bytes) const {
-    size_t usable_bytes = (F::kModulusBits - 1) / 8;
+    size_t usable_bytes = (F::Config::kModulusBits - 1) / 8;
 
     size_t num_elements = (num_bytes + usable_bytes - 1) / usable_bytes;
     std::vector<F> src_elements =
         SqueezeNativeFieldElements(state, num_elements);
 
-    std::vector<F> bytes;
+    std::vector<uint8_t> bytes;
     bytes.reserve(usable_bytes * num_elements);
     for (const F& elem : src_elements) {
       auto elem_bytes = elem.ToBigInt().ToBytesLE();
-      bytes.insert(bytes.end(), elem_bytes.begin(), elem_bytes.end());
+      bytes.insert(bytes.end(), elem_bytes.begin(),
+                   elem_bytes.begin() + usable_bytes);
     }
 
-    bytes.resize(num_bytes, F::Zero());
+    bytes.resize(num_bytes);
     return bytes;
   }
 
   std::vector<bool> SqueezeBits(SpongeState<Params>& state,
                                 size_t num_bits) const {
-    size_t usable_bits = F::kModulusBits - 1;
+    size_t usable_bits = F::Config::kModulusBits - 1;
 
     size_t num_elements = (num_bits + usable_bits - 1) / usable_bits;
     std::vector<F> src_elements =
         SqueezeNativeFieldElements(state, num_elements);
 
     std::vector<bool> bits;
+    bits.reserve(usable_bits * num_elements);
     for (const F& elem : src_elements) {
-      std::bitset<F::kModulusBits> elem_bits =
-          elem.ToBigInt().template ToBitsLE<F::kModulusBits>();
-      bits.insert(bits.end(), elem_bits.begin(), elem_bits.end());
+      std::bitset<F::Config::kModulusBits> elem_bits =
+          elem.ToBigInt().template ToBitsLE<F::Config::kModulusBits>();
+      for (size_t i = 0; i < usable_bits; ++i) {
+        bits.push_back(elem_bits[i]);
+      }
     }
     bits.resize(num_bits);
     return bits;
-- 
2.43.0


From 5d6b7a672f27e73fa83396b9442e98ecdc26b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 41/87] fix: refuse to map negative integers to prime field
 elements

---
 tachyon/crypto/hashes/prime_field_serializable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/crypto/hashes/prime_field_serializable.h b/tachyon/crypto/hashes/prime_field_serializable.h
index 16b8c41..6cfdfb0 100644
--- a/tachyon/crypto/hashes/prime_field_serializable.h
+++ b/tachyon/crypto/hashes/prime_field_serializable.h
@@ -27,6 +27,9 @@ class PrimeFieldSerializable<T, std::enable_if_t<std::is_integral_v<T>>> {
   template <typename PrimeField>
   constexpr static bool ToPrimeField(const T& value,
                                      std::vector<PrimeField>* fields) {
+    if constexpr (std::is_signed_v<T>) {
+      if (value < 0) return false;
+    }
     if constexpr (PrimeField::Config::kModulusBits <= 32) {
       if (value >= PrimeField::Config::kModulus) return false;
     } else {
-- 
2.43.0


From a66f24141f53dc1e99167625f4bed5e5c352377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:38 +0000
Subject: [PATCH 42/87] fix: size Poseidon round constants by rate plus
 capacity

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h     | 5 +++--
 .../hashes/sponge/poseidon/poseidon_config_entry_base.h     | 4 ++--
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h   | 6 ++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
index 2996fd7..cdf9ac6 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
@@ -100,8 +100,9 @@ struct PoseidonConfig : public PoseidonConfigBase<Params> {
                                      Params::kFullRounds,
                                      Params::kPartialRounds, skip_matrices);
     PoseidonConfig ret = config_entry.ToPoseidonConfig<Params>();
-    FindPoseidonARKAndMDS<F>(config_entry.ToPoseidonGrainLFSRConfig<F>(),
-                             skip_matrices, ret.ark, ret.mds);
+    FindPoseidonARKAndMDS<F>(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity),
+        skip_matrices, ret.ark, ret.mds);
     OptimizeARK<Params::kFullRounds, Params::kPartialRounds>(ret.mds, ret.ark);
     ComputeSparseMatrices<Params::kPartialRounds>(ret.mds, ret.pre_sparse_mds,
                                                   ret.sparse_mds_matrices);
diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
index 84249a6..4bdea95 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
@@ -37,12 +37,12 @@ struct TACHYON_EXPORT PoseidonConfigEntryBase {
         partial_rounds(partial_rounds) {}
 
   template <typename F>
-  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig() const {
+  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig(size_t capacity) const {
     using PrimeField = math::MaybeUnpack<F>;
 
     PoseidonGrainLFSRConfig config;
     config.prime_num_bits = PrimeField::kModulusBits;
-    config.state_len = rate + 1;
+    config.state_len = rate + capacity;
     config.num_full_rounds = full_rounds;
     config.num_partial_rounds = partial_rounds;
     return config;
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..9c452a8 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -100,7 +100,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
         ret.internal_diagonal_minus_one[i] = internal_diagonal_minus_one[i];
       }
     }
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ret.ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ret.ark);
     return ret;
   }
 
@@ -110,7 +111,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
                                       Params::kFullRounds,
                                       Params::kPartialRounds);
     math::Matrix<F> ark;
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ark);
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
-- 
2.43.0


From 5bf5a9c275a9619291d7a4f84fcf9624d2f5b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:06 +0000
Subject: [PATCH 43/87] fix: make the Poseidon2 BLS12-381 and Pallas parameters
 compile

---
 .../param_traits/poseidon2_bls12_381.h        | 28 ++++++-------
 .../poseidon2/param_traits/poseidon2_pallas.h | 42 +++++++++----------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
index f728405..2ec04a2 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
@@ -39,29 +39,29 @@ struct Poseidon2ParamsTraits<math::bls12_381::Fr, 3, 5> {
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
-        math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
-        math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
-        math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
+        *math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
+        *math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
+        *math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
+        *math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::bls12_381::Fr, 4, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 5>
+struct Poseidon2ParamsTraits<math::bls12_381::Fr, 7, 5> {
+  constexpr static std::array<math::bls12_381::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
-        math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
-        math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
-        math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
-        math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
-        math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
-        math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
-        math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
+        *math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
+        *math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
+        *math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
+        *math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
+        *math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
+        *math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
+        *math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
+        *math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
         // clang-format on
     };
   }
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
index ab8ab65..9bf2f61 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
@@ -11,46 +11,46 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/HorizenLabs/poseidon2/blob/bb476b9/plain_implementations/src/poseidon2/poseidon2_instance_pallas.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 2, 5> {
-  constexpr static std::array<math::Pallas::Fr, 3>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 2, 5> {
+  constexpr static std::array<math::pallas::Fr, 3>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(2),
+        math::pallas::Fr(1),
+        math::pallas::Fr(1),
+        math::pallas::Fr(2),
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 3, 5> {
-  constexpr static std::array<math::Pallas::Fr, 4>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 3, 5> {
+  constexpr static std::array<math::pallas::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
-        math::Pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
-        math::Pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
-        math::Pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
+        *math::pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
+        *math::pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
+        *math::pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
+        *math::pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 7, 5> {
-  constexpr static std::array<math::Pallas::Fr, 8>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 7, 5> {
+  constexpr static std::array<math::pallas::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
-        math::Pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
-        math::Pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
-        math::Pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
-        math::Pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
-        math::Pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
-        math::Pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
-        math::Pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
+        *math::pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
+        *math::pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
+        *math::pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
+        *math::pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
+        *math::pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
+        *math::pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
+        *math::pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
+        *math::pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
         // clang-format on
     };
   }
-- 
2.43.0


From 3fbe1ea90a49260c7709e8004af3907d907a55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 44/87] fix: reduce 64-bit digits when splitting into a
 non-Montgomery field

---
 tachyon/crypto/challenger/multi_field32_conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/challenger/multi_field32_conversions.h b/tachyon/crypto/challenger/multi_field32_conversions.h
index 9a3e44a..ca58cb3 100644
--- a/tachyon/crypto/challenger/multi_field32_conversions.h
+++ b/tachyon/crypto/challenger/multi_field32_conversions.h
@@ -61,7 +61,7 @@ std::array<SmallF, N> Split(const BigF& value) {
     if constexpr (SmallF::Config::kUseMontgomery) {
       ret[i] = SmallF::FromMontgomery(SmallF::Config::ToMontgomery(digit));
     } else {
-      ret[i] = SmallF(digit);
+      ret[i] = SmallF(static_cast<uint32_t>(digit % SmallF::Config::kModulus));
     }
     value_bigint >>= 64;
   }
-- 
2.43.0


From 91d668d3bfd80b403f95f0389bf7564776470398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 45/87] fix: refuse non-canonical prime field elements when
 reading

---
 tachyon/math/finite_fields/prime_field_base.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..45d5355 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -14,6 +14,7 @@
 #include <utility>
 
 #include "absl/hash/hash.h"
+#include "absl/strings/substitute.h"
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/buffer/copyable.h"
@@ -215,6 +216,7 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    if (v >= T::Config::kModulus) return false;
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
@@ -275,6 +277,10 @@ class RapidJsonValueConverter<
     value_type v;
     if (!RapidJsonValueConverter<value_type>::To(json_value, key, &v, error))
       return false;
+    if (v >= T::Config::kModulus) {
+      *error = absl::Substitute("\"$0\" is not less than the modulus", key);
+      return false;
+    }
 
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
-- 
2.43.0


From 15e21b85c3f3f1e16cfa13ae1066dee9ee4b928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 46/87] fix: refuse non-canonical x coordinates in proofs

---
 tachyon/zk/plonk/halo2/proof_serializer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f290b8..6f28f1f 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -59,7 +59,9 @@ class ProofSerializer<math::AffinePoint<Curve>> {
     if (s_use_legacy_serialization) {
       is_odd = bytes[kByteSize - 1] >> 7;
       bytes[kByteSize - 1] &= 0b01111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      BigInt x_big_int = BigInt::FromBytesLE(bytes);
+      if (x_big_int >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_big_int);
       if (x.IsZero()) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
@@ -68,7 +70,9 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       bool is_inf = bytes[kByteSize - 1] >> 7;
       is_odd = (bytes[kByteSize - 1] >> 6) & 1;
       bytes[kByteSize - 1] &= 0b00111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      BigInt x_big_int = BigInt::FromBytesLE(bytes);
+      if (x_big_int >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_big_int);
       if (x.IsZero() && is_inf) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
-- 
2.43.0


From bd2e132cc02da6d7933267d0a0246b32b2e2e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 47/87] fix: refuse points off the curve in SHA-256 transcripts

---
 tachyon/zk/plonk/halo2/sha256_transcript.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..f50eda2 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,7 +126,12 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
-    *point = {BaseField(std::move(x)), BaseField(std::move(y))};
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
+    AffinePoint ret(BaseField(std::move(x)), BaseField(std::move(y)));
+    if (!ret.IsZero() && !ret.IsOnCurve()) return false;
+    *point = std::move(ret);
     return true;
   }
 
-- 
2.43.0


From 547ab2671bacfcf8985a08ff745fc5394bc2fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:40 +0000
Subject: [PATCH 48/87] fix: stop reading past the leaves of one-leaf binary
 Merkle (sub)trees

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..4a7f90d 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -67,7 +67,8 @@ class BinaryMerkleTree final
     //
     // Finally, the remaining tree should be constructed from leaves 1 and 2.
     size_t leaves_size = std::size(leaves);
-    if (leaves_size > leaves_size_for_parallelization_) {
+    if (leaves_size_for_parallelization_ > 1 &&
+        leaves_size > leaves_size_for_parallelization_) {
       OMP_PARALLEL_FOR(size_t i = 0; i < leaves_size;
                        i += leaves_size_for_parallelization_) {
         size_t from = leaves_size - 1 + i;
@@ -78,7 +79,7 @@ class BinaryMerkleTree final
                  base::bits::Log2Floor(leaves_size_for_parallelization_);
       BuildTreeFromLeaves(base::Range<size_t>((size_t{1} << i) - 1,
                                               (size_t{1} << (i + 1)) - 1));
-    } else {
+    } else if (leaves_size > 1) {
       BuildTreeFromLeaves(
           base::Range<size_t>(leaves_size - 1, (leaves_size << 1) - 1));
     }
-- 
2.43.0


From 196ca4bfe5deea8cce59cece1a1325b507da1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:17 +0000
Subject: [PATCH 49/87] fix: refuse Merkle openings whose shape doesn't fit the
 dimensions

---
 .../field_merkle_tree_mmcs.h                  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..bc700df 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -15,6 +15,7 @@
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
 #include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
@@ -171,7 +172,19 @@ class FieldMerkleTreeMMCS final
       const Proof& proof) const {
     TRACE_EVENT("ProofVerification",
                 "FieldMerkleTreeMMCS::DoVerifyOpeningProof");
-    CHECK_EQ(dimensions_list.size(), opened_values.size());
+    if (dimensions_list.empty() ||
+        dimensions_list.size() != opened_values.size()) {
+      LOG(ERROR) << "Wrong number of opened rows";
+      return false;
+    }
+    for (size_t i = 0; i < dimensions_list.size(); ++i) {
+      // NOTE: A width of 0 means that the width is not known to the verifier.
+      if (dimensions_list[i].width != 0 &&
+          opened_values[i].size() != dimensions_list[i].width) {
+        LOG(ERROR) << "Opened row [" << i << "] has a wrong width";
+        return false;
+      }
+    }
 
     std::vector<IndexedDimensions> sorted_dimensions_list = base::Map(
         dimensions_list, [](size_t index, math::Dimensions dimensions) {
@@ -186,6 +199,11 @@ class FieldMerkleTreeMMCS final
 
     size_t next_layer =
         absl::bit_ceil(remaining_dimensions_list.front().dimensions.height);
+    if (index >= next_layer ||
+        proof.size() != base::bits::Log2Ceiling(next_layer)) {
+      LOG(ERROR) << "Index or proof doesn't fit the height of the tree";
+      return false;
+    }
     size_t next_layer_size = CountLayers(next_layer, remaining_dimensions_list);
     Digest root = hasher_.Hash(GetOpenedValuesAsPrimeFieldVectors(
         opened_values, remaining_dimensions_list.subspan(0, next_layer_size)));
-- 
2.43.0


From 84f827fbfd03d1149a7204e876188158c9ccc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 50/87] fix: reject bad FRI proofs instead of aborting, and
 accept one-row traces

---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 62 +++++++++++++++++--
 tachyon/crypto/commitments/fri/verify.h       | 56 ++++++++++++-----
 2 files changed, 98 insertions(+), 20 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 96fb772..ba20b1e 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -15,6 +15,7 @@
 #include "absl/container/flat_hash_map.h"
 
 #include "tachyon/base/bits.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/parallelize.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/fri/fri_proof.h"
@@ -229,6 +230,11 @@ class TwoAdicFRI {
       const OpenedValues& opened_values_by_round, const FRIProof& proof,
       Challenger& challenger) const {
     TRACE_EVENT("ProofVerification", "TwoAdicFRI::VerifyOpeningProof");
+    if (!CheckShape(commits_by_round, domains_by_round, points_by_round,
+                    opened_values_by_round, proof)) {
+      LOG(ERROR) << "shape of the proof doesn't match";
+      return false;
+    }
     // Batch combination challenge
     const ExtF alpha = challenger.template SampleExtElement<ExtF>();
     VLOG(2) << "FRI(alpha): " << alpha.ToHexString(true);
@@ -239,7 +245,8 @@ class TwoAdicFRI {
         [this, alpha, log_global_max_num_rows, &commits_by_round,
          &domains_by_round, &points_by_round, &opened_values_by_round](
             size_t index, const InputProof& input_proof,
-            std::vector<size_t>& ro_num_rows, std::vector<ExtF>& ro_values) {
+            std::vector<size_t>& ro_num_rows,
+            std::vector<ExtF>& ro_values) -> bool {
           struct ReducedOpening {
             ExtF value;
             ExtF pow;
@@ -254,6 +261,10 @@ class TwoAdicFRI {
 
           absl::btree_map<size_t, ReducedOpening> reduced_openings;
           size_t num_rounds = commits_by_round.size();
+          if (input_proof.size() != num_rounds) {
+            LOG(ERROR) << "number of batch openings doesn't match";
+            return false;
+          }
           for (size_t round = 0; round < num_rounds; ++round) {
             const std::vector<Domain>& domains = domains_by_round[round];
             const OpeningPointsForRound& points = points_by_round[round];
@@ -276,9 +287,13 @@ class TwoAdicFRI {
             const std::vector<std::vector<F>>& opened_values_in =
                 input_proof[round].opened_values;
 
-            CHECK(mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
-                                           reduced_index, opened_values_in,
-                                           input_proof[round].opening_proof));
+            if (!mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
+                                          reduced_index, opened_values_in,
+                                          input_proof[round].opening_proof)) {
+              LOG(ERROR) << "failed to verify the opening of round [" << round
+                         << "]";
+              return false;
+            }
 
             for (size_t batch_idx = 0; batch_idx < vals_size; ++batch_idx) {
               const Domain& domain = domains[batch_idx];
@@ -304,7 +319,10 @@ class TwoAdicFRI {
                 const ExtF& z = cur_points[i];
                 ExtF denom = unwrap((x - z).Inverse());
                 const std::vector<ExtF>& ps_at_z = cur_values[i];
-                CHECK_EQ(ps_at_z.size(), cur_values_in.size());
+                if (ps_at_z.size() != cur_values_in.size()) {
+                  LOG(ERROR) << "number of opened values doesn't match";
+                  return false;
+                }
                 for (size_t j = 0; j < ps_at_z.size(); ++j) {
                   ExtF quotient = (cur_values_in[j] - ps_at_z[j]) * denom;
                   reduced_opening.value += reduced_opening.pow * quotient;
@@ -320,6 +338,7 @@ class TwoAdicFRI {
             ro_num_rows.emplace_back(it->first);
             ro_values.emplace_back(std::move(it->second.value));
           }
+          return true;
         });
   }
 
@@ -327,6 +346,39 @@ class TwoAdicFRI {
   friend class c::crypto::TwoAdicFRIImpl<ExtF, InputMMCS, ChallengeMMCS,
                                          Challenger>;
 
+  // Returns true if |proof| and |opened_values_by_round| have the shape that
+  // the other arguments imply.
+  bool CheckShape(const std::vector<Commitment>& commits_by_round,
+                  const std::vector<std::vector<Domain>>& domains_by_round,
+                  const OpeningPoints& points_by_round,
+                  const OpenedValues& opened_values_by_round,
+                  const FRIProof& proof) const {
+    size_t num_rounds = commits_by_round.size();
+    if (domains_by_round.size() != num_rounds ||
+        points_by_round.size() != num_rounds ||
+        opened_values_by_round.size() != num_rounds) {
+      return false;
+    }
+    uint32_t log_global_max_size = 0;
+    for (size_t round = 0; round < num_rounds; ++round) {
+      size_t num_matrices = domains_by_round[round].size();
+      if (points_by_round[round].size() != num_matrices ||
+          opened_values_by_round[round].size() != num_matrices) {
+        return false;
+      }
+      for (size_t i = 0; i < num_matrices; ++i) {
+        log_global_max_size =
+            std::max(log_global_max_size,
+                     domains_by_round[round][i].domain()->log_size_of_group());
+        if (points_by_round[round][i].size() !=
+            opened_values_by_round[round][i].size()) {
+          return false;
+        }
+      }
+    }
+    return proof.commit_phase_commits.size() == log_global_max_size;
+  }
+
   static absl::flat_hash_map<ExtF, std::vector<ExtF>>
   ComputeInverseDenominators(
       const std::vector<absl::Span<
diff --git a/tachyon/crypto/commitments/fri/verify.h b/tachyon/crypto/commitments/fri/verify.h
index f23bb33..335e012 100644
--- a/tachyon/crypto/commitments/fri/verify.h
+++ b/tachyon/crypto/commitments/fri/verify.h
@@ -6,9 +6,11 @@
 #ifndef TACHYON_CRYPTO_COMMITMENTS_FRI_VERIFY_H_
 #define TACHYON_CRYPTO_COMMITMENTS_FRI_VERIFY_H_
 
+#include <utility>
 #include <vector>
 
 #include "tachyon/base/bits.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/ranges/algorithm.h"
 #include "tachyon/crypto/challenger/challenger.h"
 #include "tachyon/crypto/commitments/fri/fri_config.h"
@@ -29,11 +31,12 @@ struct CommitStep {
 };
 
 template <typename PCS, typename MMCS, typename F>
-F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
-              const FRIConfig<MMCS>& config,
-              const std::vector<CommitStep<PCS>>& steps,
-              const std::vector<size_t>& ro_num_rows,
-              const std::vector<F>& ro_values) {
+[[nodiscard]] bool VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
+                               const FRIConfig<MMCS>& config,
+                               const std::vector<CommitStep<PCS>>& steps,
+                               const std::vector<size_t>& ro_num_rows,
+                               const std::vector<F>& ro_values,
+                               F* folded_eval_out) {
   F folded_eval = F::Zero();
   size_t ro_idx = 0;
   size_t ro_size = ro_num_rows.size();
@@ -47,18 +50,30 @@ F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
     size_t index_pair = index >> 1;
     std::vector<std::vector<F>> evals = {{folded_eval, folded_eval}};
     evals[0][index_sibling % 2] = steps[step_idx].opening.sibling_value;
-    CHECK(config.mmcs.VerifyOpeningProof(
-        steps[step_idx].commit,
-        {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
-        evals, steps[step_idx].opening.opening_proof));
+    if (!config.mmcs.VerifyOpeningProof(
+            steps[step_idx].commit,
+            {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
+            evals, steps[step_idx].opening.opening_proof)) {
+      LOG(ERROR) << "failed to verify the opening at step [" << step_idx << "]";
+      return false;
+    }
     folded_eval = FoldRow(index_pair, log_folded_num_rows, steps[step_idx].beta,
                           evals[0]);
     index = index_pair;
   }
   CHECK_LT(index, config.Blowup()) << "index was " << index;
-  CHECK_EQ(ro_idx, ro_size);
+  // The matrices of a single row are not folded, see |CommitPhase()|.
+  if (ro_idx != ro_size &&
+      ro_num_rows[ro_idx] == log_max_num_rows - steps.size()) {
+    folded_eval += ro_values[ro_idx++];
+  }
+  if (ro_idx != ro_size) {
+    LOG(ERROR) << "not all of the reduced openings are consumed";
+    return false;
+  }
 
-  return folded_eval;
+  *folded_eval_out = std::move(folded_eval);
+  return true;
 }
 
 template <typename PCS, typename ChallengeMMCS, typename Challenger,
@@ -100,8 +115,16 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
     std::vector<ExtF> ro_values;
     size_t index = challenger.SampleBits(log_max_num_rows);
     VLOG(2) << "FRI(index[" << i << "]): " << index;
-    open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
-               ro_values);
+    if (proof.query_proofs[i].commit_phase_openings.size() != num_commits) {
+      LOG(ERROR) << "number of openings doesn't match "
+                 << proof.query_proofs[i].commit_phase_openings.size() << " vs "
+                 << num_commits;
+      return false;
+    }
+    if (!open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
+                    ro_values)) {
+      return false;
+    }
 
 #if DCHECK_IS_ON()
     // Check reduced openings sorted by |num_rows| descending
@@ -114,8 +137,11 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
               betas[j], proof.commit_phase_commits[j],
               proof.query_proofs[i].commit_phase_openings[j]};
         });
-    ExtF folded_eval = VerifyQuery(index, log_max_num_rows, config, steps,
-                                   ro_num_rows, ro_values);
+    ExtF folded_eval;
+    if (!VerifyQuery(index, log_max_num_rows, config, steps, ro_num_rows,
+                     ro_values, &folded_eval)) {
+      return false;
+    }
     if (folded_eval != proof.final_eval) {
       LOG(ERROR) << "final_eval is not matched: "
                  << folded_eval.ToHexString(true);
-- 
2.43.0


From 24860a076ef05f44d575cedad608d084c6d1f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 51/87] fix: stay inside the last chunk in GetSelectorsOnCoset

---
 tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..3bc3c33 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -106,7 +106,7 @@ class TwoAdicMultiplicativeCoset {
             inv_denoms_inv_zeroifier[i] = evals[i];
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From b561b6c862b8a97daac6681c7316a04afcd9d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 52/87] fix: evaluate the selectors on cosets larger than the
 domain

---
 .../commitments/fri/two_adic_multiplicative_coset.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 3bc3c33..4352b4b 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,23 +87,27 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
+    F g_pow_n = coset.domain()->group_gen().ExpPowOfTwo(
+        domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
-                        size_t len, size_t chunk_offset, size_t chunk_size) {
+        evals_size,
+        [&s_pow_n, &g_pow_n, &evals, &inv_denoms_inv_zeroifier](
+            size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * g_pow_n.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= g_pow_n;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
               absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
-- 
2.43.0


From 607c653bb73c165a0f479b68136ba863a66c1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 53/87] fix: refuse SimpleFRI proofs with a wrong number of
 layers

---
 tachyon/crypto/commitments/fri/simple_fri.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index a631e05..7d300c7 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -124,6 +124,13 @@ class SimpleFRI final
     TranscriptReader<F>* reader = transcript.ToReader();
     size_t domain_size = domain_->size();
     uint32_t num_layers = domain_->log_size_of_group();
+    if (proof.paths.size() != num_layers ||
+        proof.paths_sym.size() != num_layers ||
+        proof.evaluations.size() != num_layers ||
+        proof.evaluations_sym.size() != num_layers) {
+      LOG(ERROR) << "number of layers doesn't match";
+      return false;
+    }
     F root;
     F x;
     F beta;
-- 
2.43.0


From 7ce89ceecbbceeba6d712a707900077dca70a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 54/87] fix: transform one-row matrices instead of aborting

---
 .../univariate/radix2_evaluation_domain.h      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index c4e78c7..52db3c1 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -102,9 +102,11 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
+    // A matrix of a single row is its own transform.
+    if (this->size_ == 1) return;
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
-    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
 
     // The first half looks like a normal DIT.
     ReverseMatrixIndexBits(mat);
@@ -134,9 +136,21 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
+    // The polynomials that a matrix of a single row holds are constant.
+    if (this->size_ == 1) {
+      if (added_bits == 0) {
+        out = std::move(mat);
+        return;
+      }
+      CHECK_EQ(out.rows(), Eigen::Index{1} << added_bits);
+      for (Eigen::Index row = 0; row < out.rows(); ++row) {
+        out.row(row) = mat.row(0);
+      }
+      return;
+    }
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
-    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
 
     // The first half looks like a normal DIT.
     ReverseMatrixIndexBits(mat);
-- 
2.43.0


From d20f53b7709d6d4d934546c46ee5676a50a80a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 55/87] fix: commit to the zero polynomial in SimpleFRI

---
 tachyon/crypto/commitments/fri/simple_fri.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index 7d300c7..a099140 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -56,6 +56,8 @@ class SimpleFRI final
     TranscriptWriter<F>* writer = transcript->ToWriter();
     BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(0), hasher_);
     Evals evals = domain_->FFT(poly);
+    // NOTE: The evaluations of the zero polynomial are left empty.
+    evals.evaluations().resize(domain_->size());
     F root;
     if (!tree.Commit(evals.evaluations(), &root)) return false;
     if (!writer->WriteToProof(root)) return false;
@@ -74,6 +76,7 @@ class SimpleFRI final
         BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(i),
                                                    hasher_);
         evals = sub_domains_[i - 1]->FFT(folded_poly);
+        evals.evaluations().resize(sub_domains_[i - 1]->size());
         if (!tree.Commit(evals.evaluations(), &root)) return false;
         if (!writer->WriteToProof(root)) return false;
         cur_poly = &folded_poly;
-- 
2.43.0


From 98c7859f971ee8a7a57c9688de31a1c68edcf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 56/87] fix: pair every shuffle with its own grand product

---
 tachyon/zk/shuffle/evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index a8c773e..d64f780 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -74,7 +74,7 @@ class Evaluator {
     for (size_t i = 0; i < evaluators_.size(); i += 2) {
       const plonk::GraphEvaluator<F>& input_evaluator = evaluators_[i];
       const plonk::GraphEvaluator<F>& evaluator = evaluators_[i + 1];
-      const EvalsOrExtendedEvals& product_coset = product_cosets_[i];
+      const EvalsOrExtendedEvals& product_coset = product_cosets_[i / 2];
 
       plonk::EvaluationInput<EvalsOrExtendedEvals> input_eval_data =
           builder.ExtractEvaluationInput(
-- 
2.43.0


From c5c845fefe4da086a462a0da859998dd55992b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 57/87] fix: stop Value::operator!= from calling itself

---
 tachyon/zk/base/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/base/value.h b/tachyon/zk/base/value.h
index 2f9fca2..90aaa2d 100644
--- a/tachyon/zk/base/value.h
+++ b/tachyon/zk/base/value.h
@@ -62,7 +62,7 @@ class Value : public math::Field<Value<T>> {
     return *value_ == *other.value_;
   }
   constexpr bool operator!=(const Value& other) const {
-    return operator!=(other);
+    return !operator==(other);
   }
 
   const T& value() const { return *value_; }
-- 
2.43.0


From 62ed352d032170c46c039be95d2874cb60ec52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 58/87] fix: chunk lookups only with lookups into the same
 table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..d15bad8 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,8 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // NOTE: An input can only be merged into the arguments of its own table.
+      size_t first_argument_idx = lookups_.size();
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,7 +318,8 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_argument_idx; i < lookups_.size(); ++i) {
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           // Try to fit input into one of the |lookup_arguments|.
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
-- 
2.43.0


From 54fda1f1ee3e7a0e8d7a49ecec5ef435bd9cb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 59/87] fix: reject truncated or undecodable proofs instead of
 aborting

---
 tachyon/zk/plonk/halo2/proof_reader.h | 8 +++++++-
 tachyon/zk/plonk/halo2/verifier.h     | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/proof_reader.h b/tachyon/zk/plonk/halo2/proof_reader.h
index 32db20d..97f11fb 100644
--- a/tachyon/zk/plonk/halo2/proof_reader.h
+++ b/tachyon/zk/plonk/halo2/proof_reader.h
@@ -321,11 +321,16 @@ class ProofReader {
 
   bool Done() const { return cursor_ == ProofCursor::kDone; }
 
+  // Returns true if any of the elements couldn't be read from the proof.
+  bool failed() const { return failed_; }
+
  private:
   template <typename T>
   T Read() {
     T value;
-    CHECK(transcript_->ReadFromProof(&value));
+    if (!transcript_->ReadFromProof(&value)) {
+      failed_ = true;
+    }
     return value;
   }
 
@@ -338,6 +343,7 @@ class ProofReader {
   // not owned
   crypto::TranscriptReader<C>* const transcript_ = nullptr;
   size_t num_circuits_ = 0;
+  bool failed_ = false;
   Proof proof_;
   ProofCursor cursor_ = ProofCursor::kAdviceCommitmentsVecAndChallenges;
 };
diff --git a/tachyon/zk/plonk/halo2/verifier.h b/tachyon/zk/plonk/halo2/verifier.h
index 11715ad..7f0404e 100644
--- a/tachyon/zk/plonk/halo2/verifier.h
+++ b/tachyon/zk/plonk/halo2/verifier.h
@@ -115,6 +115,10 @@ class Verifier : public VerifierBase<typename _PS::PCS> {
     proof_reader.ReadLookupEvals();
     proof_reader.ReadShuffleEvals();
     CHECK(proof_reader.Done());
+    if (proof_reader.failed()) {
+      LOG(ERROR) << "Failed to read proof";
+      return false;
+    }
 
     if (proof_out) {
       *proof_out = proof;
-- 
2.43.0


From dabf99e1aace68e26275d50126130c6295ab0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 60/87] fix: evaluate the circuit over the whole extended
 domain for the PSE vendor

---
 tachyon/zk/lookup/halo2/evaluator.h           |  9 ++-
 .../lookup/log_derivative_halo2/evaluator.h   | 17 +++---
 .../plonk/permutation/permutation_evaluator.h |  7 ++-
 .../vanishing/circuit_polynomial_builder.h    | 55 +++++++++++++------
 .../plonk/vanishing/custom_gate_evaluator.h   |  2 +-
 tachyon/zk/shuffle/evaluator.h                | 11 ++--
 6 files changed, 64 insertions(+), 37 deletions(-)

diff --git a/tachyon/zk/lookup/halo2/evaluator.h b/tachyon/zk/lookup/halo2/evaluator.h
index 58a4c8c..ae43bf6 100644
--- a/tachyon/zk/lookup/halo2/evaluator.h
+++ b/tachyon/zk/lookup/halo2/evaluator.h
@@ -81,10 +81,13 @@ class Evaluator {
         size_t idx = start + j;
 
         F zero = F::Zero();
-        F table_value = ev.Evaluate(evaluation_input, idx, /*scale=*/1, zero);
+        F table_value =
+            ev.Evaluate(evaluation_input, idx, builder.rotation_scale_, zero);
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
-        RowIndex r_prev = Rotation(-1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
+        RowIndex r_prev =
+            Rotation(-1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         F a_minus_s = input_coset[idx] - table_coset[idx];
 
diff --git a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
index 6a4c706..34e0ada 100644
--- a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
+++ b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
@@ -119,17 +119,18 @@ class Evaluator {
         if (idx == 0) {
           inputs_value = base::Map(
               inputs_eval_data,
-              [&inputs_evaluator, &cur_idx](
+              [&builder, &inputs_evaluator, &cur_idx](
                   size_t i, plonk::EvaluationInput<EvalsOrExtendedEvals>&
                                 input_eval_data) {
                 return inputs_evaluator[i].Evaluate(input_eval_data, cur_idx,
-                                                    /*scale=*/1, F::Zero());
+                                                    builder.rotation_scale_,
+                                                    F::Zero());
               });
         } else {
           for (size_t i = 0; i < inputs_value.size(); ++i) {
-            inputs_value[i] =
-                inputs_evaluator[i].Evaluate(inputs_eval_data[i], cur_idx,
-                                             /*scale=*/1, F::Zero());
+            inputs_value[i] = inputs_evaluator[i].Evaluate(
+                inputs_eval_data[i], cur_idx, builder.rotation_scale_,
+                F::Zero());
           }
         }
 
@@ -139,10 +140,10 @@ class Evaluator {
             [](F& acc, const F& input) { return acc *= input; });
 
         // τ(X) = t(X) + β
-        F table_value = table_evaluator.Evaluate(table_eval_data, cur_idx,
-                                                 /*scale=*/1, F::Zero());
+        F table_value = table_evaluator.Evaluate(
+            table_eval_data, cur_idx, builder.rotation_scale_, F::Zero());
         RowIndex r_next =
-            Rotation(1).GetIndex(cur_idx, /*scale=*/1, builder.n_);
+            Rotation(1).GetIndex(cur_idx, builder.rotation_scale_, builder.n_);
 
         // LHS = τ(X) * Π(φᵢ(X)) * (ϕ(ω * X) - ϕ(X))
         F lhs = table_value * inputs_prod *
diff --git a/tachyon/zk/plonk/permutation/permutation_evaluator.h b/tachyon/zk/plonk/permutation/permutation_evaluator.h
index a7c55c1..cf52a76 100644
--- a/tachyon/zk/plonk/permutation/permutation_evaluator.h
+++ b/tachyon/zk/plonk/permutation/permutation_evaluator.h
@@ -68,8 +68,8 @@ class PermutationEvaluator {
         TRACE_EVENT("Subtask", "Evaluate permutation constraints part 2");
         // Except for the first set, enforce:
         // l_first(X) * (zⱼ(X) - zⱼ₋₁(ω⁻¹X)) = 0
-        RowIndex r_last =
-            builder.last_rotation_.GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_last = builder.last_rotation_.GetIndex(
+            idx, builder.rotation_scale_, builder.n_);
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           if (j == 0) continue;
           chunk[i] *= builder.y_;
@@ -83,7 +83,8 @@ class PermutationEvaluator {
         // And for all the sets we enforce: (1 - (l_last(X) + l_blind(X))) *
         // (zⱼ(ωX) * Πⱼ(p(X) + βsⱼ(X) + γ) - zⱼ(X) Πⱼ(p(X) + δʲβX + γ))
         F current_delta = builder.delta_start_ * beta_term;
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           const std::vector<base::Ref<const EvalsOrExtendedEvals>>&
diff --git a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
index d26417b..60ea5d2 100644
--- a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
+++ b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
@@ -109,14 +109,25 @@ class CircuitPolynomialBuilder {
       const std::vector<PermutationProver<Poly, Evals>>& permutation_provers,
       const std::vector<LookupProver>& lookup_provers,
       const std::vector<shuffle::Prover<Poly, Evals>>& shuffle_provers) {
-    CircuitPolynomialBuilder builder(
-        domain->group_gen(), extended_domain->group_gen(), theta, beta, gamma,
-        y, zeta, proving_key, permutation_provers, lookup_provers,
-        shuffle_provers, poly_tables);
+    const F& omega = kVendor == halo2::Vendor::kPSE
+                         ? extended_domain->group_gen()
+                         : domain->group_gen();
+    CircuitPolynomialBuilder builder(omega, extended_domain->group_gen(), theta,
+                                     beta, gamma, y, zeta, proving_key,
+                                     permutation_provers, lookup_provers,
+                                     shuffle_provers, poly_tables);
     builder.domain_ = domain;
     builder.extended_domain_ = extended_domain;
 
-    builder.n_ = static_cast<int32_t>(n);
+    if constexpr (kVendor == halo2::Vendor::kPSE) {
+      // The whole extended domain is evaluated at once, where the rows of the
+      // original domain are |rotation_scale_| rows apart from each other.
+      builder.n_ = static_cast<int32_t>(extended_domain->size());
+      builder.rotation_scale_ =
+          static_cast<int32_t>(extended_domain->size() / n);
+    } else {
+      builder.n_ = static_cast<int32_t>(n);
+    }
     builder.num_parts_ = extended_domain->size() >> domain->log_size_of_group();
     builder.chunk_len_ = cs_degree - 2;
 
@@ -130,9 +141,9 @@ class CircuitPolynomialBuilder {
   // Returns an evaluation-formed polynomial as below.
   // - gate₀(X) + y * gate₁(X) + ... + yⁱ * gateᵢ(X) + ...
   ExtendedEvals BuildExtendedCircuitColumn(
-      CustomGateEvaluator<Evals>& custom_gate_evaluator,
-      PermutationEvaluator<Evals>& permutation_evaluator,
-      lookup::Evaluator<kLookupType, Evals>& lookup_evaluator,
+      CustomGateEvaluator<EvalsOrExtendedEvals>& custom_gate_evaluator,
+      PermutationEvaluator<EvalsOrExtendedEvals>& permutation_evaluator,
+      lookup::Evaluator<kLookupType, EvalsOrExtendedEvals>& lookup_evaluator,
       shuffle::Evaluator<EvalsOrExtendedEvals>& shuffle_evaluator) {
     if constexpr (kVendor == halo2::Vendor::kPSE) {
       return BuildExtendedCircuitColumnPSE(custom_gate_evaluator,
@@ -160,16 +171,24 @@ class CircuitPolynomialBuilder {
   }
 
   void UpdateLPolyCosets() {
-    l_first_ = coset_domain_->FFT(proving_key_.l_first());
-    l_last_ = coset_domain_->FFT(proving_key_.l_last());
-    l_active_row_ = coset_domain_->FFT(proving_key_.l_active_row());
+    if constexpr (kVendor == halo2::Vendor::kPSE) {
+      l_first_ = proving_key_.l_first();
+      l_last_ = proving_key_.l_last();
+      l_active_row_ = proving_key_.l_active_row();
+    } else {
+      l_first_ = coset_domain_->FFT(proving_key_.l_first());
+      l_last_ = coset_domain_->FFT(proving_key_.l_last());
+      l_active_row_ = coset_domain_->FFT(proving_key_.l_active_row());
+    }
   }
 
   ExtendedEvals BuildExtendedCircuitColumnPSE(
-      CustomGateEvaluator<Evals>& custom_gate_evaluator,
-      PermutationEvaluator<Evals>& permutation_evaluator,
-      lookup::Evaluator<kLookupType, Evals>& lookup_evaluator,
+      CustomGateEvaluator<EvalsOrExtendedEvals>& custom_gate_evaluator,
+      PermutationEvaluator<EvalsOrExtendedEvals>& permutation_evaluator,
+      lookup::Evaluator<kLookupType, EvalsOrExtendedEvals>& lookup_evaluator,
       shuffle::Evaluator<EvalsOrExtendedEvals>& shuffle_evaluator) {
+    UpdateLPolyCosets();
+
     ExtendedEvals ret = extended_domain_->template Zero<ExtendedEvals>();
     size_t circuit_num = poly_tables_.size();
     for (size_t i = 0; i < circuit_num; ++i) {
@@ -197,9 +216,9 @@ class CircuitPolynomialBuilder {
   }
 
   ExtendedEvals BuildExtendedCircuitColumnScroll(
-      CustomGateEvaluator<Evals>& custom_gate_evaluator,
-      PermutationEvaluator<Evals>& permutation_evaluator,
-      lookup::Evaluator<kLookupType, Evals>& lookup_evaluator,
+      CustomGateEvaluator<EvalsOrExtendedEvals>& custom_gate_evaluator,
+      PermutationEvaluator<EvalsOrExtendedEvals>& permutation_evaluator,
+      lookup::Evaluator<kLookupType, EvalsOrExtendedEvals>& lookup_evaluator,
       shuffle::Evaluator<EvalsOrExtendedEvals>& shuffle_evaluator) {
     std::vector<std::vector<F>> value_parts;
     value_parts.reserve(num_parts_);
@@ -253,7 +272,9 @@ class CircuitPolynomialBuilder {
 
   F current_extended_omega_ = F::One();
 
+  // The number of rows of the domain where the circuit is evaluated.
   int32_t n_ = 0;
+  int32_t rotation_scale_ = 1;
   size_t num_parts_ = 0;
   size_t chunk_len_ = 0;
   const F& omega_;
diff --git a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
index d913b17..803ed87 100644
--- a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
+++ b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
@@ -52,7 +52,7 @@ class CustomGateEvaluator {
     size_t start = chunk_offset * chunk_size;
     for (size_t i = 0; i < chunk.size(); ++i) {
       chunk[i] = evaluator_.Evaluate(evaluation_input, start + i,
-                                     /*scale=*/1, chunk[i]);
+                                     builder.rotation_scale_, chunk[i]);
     }
   }
 
diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index d64f780..02efaab 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -88,12 +88,13 @@ class Evaluator {
       for (size_t j = 0; j < chunk.size(); ++j) {
         size_t idx = start + j;
 
-        F input_value = input_evaluator.Evaluate(input_eval_data, idx,
-                                                 /*scale=*/1, F::Zero());
-        F value = evaluator.Evaluate(eval_data, idx,
-                                     /*scale=*/1, F::Zero());
+        F input_value = input_evaluator.Evaluate(
+            input_eval_data, idx, builder.rotation_scale_, F::Zero());
+        F value = evaluator.Evaluate(eval_data, idx, builder.rotation_scale_,
+                                     F::Zero());
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         // l_first(X) * (1 - z(X)) = 0
         chunk[j] *= builder.y_;
-- 
2.43.0


From da1736fe0382848480e99b9aadf9b7df02deebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 61/87] fix: verify openings with the right pairing after
 loading a KZG setup

---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From e8fbe816708b07a1e3d6a14c7a386dfaad3bd6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:41 +0000
Subject: [PATCH 62/87] fix: keep SHPlonk opening polynomials clean when a
 constant polynomial is opened

---
 tachyon/crypto/commitments/kzg/shplonk.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 9c4d82b..9404a70 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -169,16 +169,11 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
                   size_t i, const PolynomialOpenings<Poly>& poly_openings) {
                 using Coefficients = typename Poly::Coefficients;
 
-                Poly poly = *poly_openings.poly_oracle;
-                if (poly.NumElements() > 0) {
-                  // NOTE(chokobole): It's safe to access since we checked
-                  // |NumElements()| is greater than 0.
-                  poly.at(0) -= low_degree_extensions[i].Evaluate(u);
-                  return poly;
-                }
-
-                return Poly(Coefficients(
-                    {-low_degree_extensions[i].Evaluate(u)}, true));
+                // NOTE: Subtract it as a polynomial so that the result has no
+                // high degree zeros when |poly_oracle| is constant.
+                return *poly_openings.poly_oracle -
+                       Poly(Coefficients(
+                           {low_degree_extensions[i].Evaluate(u)}, true));
               });
 
           // clang-format off
-- 
2.43.0


From 45b79bf5593bdb2ba674afc6d89ebe5f1b5a22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 63/87] fix: combine selectors within the degree bound of the
 joining selector

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..9c168d3 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -220,7 +220,7 @@ class SelectorCompressor {
         // Can the new selector join the combination? Reminder: we use
         // |selector.max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From 512c292483f56421bbcb36c2c76105469d06fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 64/87] fix: name the scaled expression in its identifier

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From d443c0fdfabb1f7d3c507bf1ed8baff4016c66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 65/87] fix: recompute degree and blinding factors after the
 constraint system changes

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index d15bad8..ca1dbc9 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -143,6 +143,7 @@ class ConstraintSystem {
   // larger amount than actually needed. This can be used, for example, to
   // force the permutation argument to involve more columns in the same set.
   void set_minimum_degree(size_t degree) {
+    cached_degree_.reset();
     if (minimum_degree_) {
       minimum_degree_ = std::max(minimum_degree_.value(), degree);
     } else {
@@ -175,6 +176,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // columns they need to match.
   void Lookup(std::string_view name, LookupCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>, LookupTableColumn> pairs =
         std::move(callback).Run(cells);
@@ -222,6 +224,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // expressions they need to match.
   void LookupAny(std::string_view name, LookupAnyCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -347,6 +350,7 @@ class ConstraintSystem {
 
   // Add a shuffle argument for some input expressions and shuffle expressions.
   size_t Shuffle(std::string_view name, ShuffleCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     shuffle::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -385,6 +389,7 @@ class ConstraintSystem {
     // Make a new query
     advice_queries_.emplace_back(at, column);
     ++num_advice_queries_[column.index()];
+    cached_blinding_factors_.reset();
     return advice_queries_.size() - 1;
   }
 
@@ -452,6 +457,7 @@ class ConstraintSystem {
   // A gate is required to contain polynomial constraints. This method will
   // crash if |constrain| returns an empty iterator.
   void CreateGate(std::string_view name, ConstrainCallback constrain) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     std::vector<Constraint<F>> constraints = std::move(constrain).Run(cells);
     std::vector<Selector> queried_selectors =
-- 
2.43.0


From bb638099ecf90a21e7100eadfa0c0239e11cf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 66/87] fix: keep lookup tables of different expressions apart

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index ca1dbc9..29bc81b 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -800,7 +800,8 @@ class ConstraintSystem {
       std::vector<std::unique_ptr<Expression<F>>>&& table_expressions) {
     std::stringstream table_expressions_ss;
     for (const std::unique_ptr<Expression<F>>& expr : table_expressions) {
-      table_expressions_ss << GetIdentifier(expr.get());
+      // NOTE: Separated, so that {1, 12} is not taken for {11, 2}.
+      table_expressions_ss << GetIdentifier(expr.get()) << ",";
     }
 
     std::string table_expressions_identifier = table_expressions_ss.str();
-- 
2.43.0


From 09a7531a4f8ec85707e0ade972f1fc42ad66270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 67/87] fix: accept a single encoding of the point at infinity
 in proofs

---
 tachyon/zk/plonk/halo2/proof_serializer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f28f1f..6c6983a 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -63,6 +63,8 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       if (x_big_int >= BaseField::Config::kModulus) return false;
       x = BaseField::FromBigInt(x_big_int);
       if (x.IsZero()) {
+        // The point at infinity has a single encoding.
+        if (is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
@@ -73,7 +75,9 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       BigInt x_big_int = BigInt::FromBytesLE(bytes);
       if (x_big_int >= BaseField::Config::kModulus) return false;
       x = BaseField::FromBigInt(x_big_int);
-      if (x.IsZero() && is_inf) {
+      if (is_inf) {
+        // The point at infinity has a single encoding.
+        if (!x.IsZero() || is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
-- 
2.43.0


From 67db1c9e41fb260003cdf624a54d678697530589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:36 +0000
Subject: [PATCH 68/87] fix: refuse copies one row below the table

---
 tachyon/zk/plonk/permutation/permutation_assembly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/permutation/permutation_assembly.h b/tachyon/zk/plonk/permutation/permutation_assembly.h
index 6fa67d0..8bf0f27 100644
--- a/tachyon/zk/plonk/permutation/permutation_assembly.h
+++ b/tachyon/zk/plonk/permutation/permutation_assembly.h
@@ -59,8 +59,8 @@ class TACHYON_EXPORT PermutationAssembly {
 
   void Copy(const AnyColumnKey& left_column, RowIndex left_row,
             const AnyColumnKey& right_column, RowIndex right_row) {
-    CHECK_LE(left_row, rows_);
-    CHECK_LE(right_row, rows_);
+    CHECK_LT(left_row, rows_);
+    CHECK_LT(right_row, rows_);
 
     // Get indices of each column.
     size_t left_col_idx = GetColumnIndex(left_column);
-- 
2.43.0


From e8a94314cb317bbc3e4bca0d64049d8c807f6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:55 +0000
Subject: [PATCH 69/87] fix: give the constant zero no column in R1CS matrices

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..7986f63 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // The constant "zero" has no column.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From c4bc1bc14e0ac8001a2d7a5160aedb8193df74dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:39 +0000
Subject: [PATCH 70/87] fix: sample the randomness of ReRandomizeProof before
 looking at it

---
 tachyon/zk/r1cs/groth16/prove.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/r1cs/groth16/prove.h b/tachyon/zk/r1cs/groth16/prove.h
index 30a5033..3f26ef8 100644
--- a/tachyon/zk/r1cs/groth16/prove.h
+++ b/tachyon/zk/r1cs/groth16/prove.h
@@ -265,9 +265,9 @@ Proof<Curve> ReRandomizeProof(const VerifyingKey<Curve>& vk,
   };
 
   Randoms randoms;
-  while (randoms.AreZeroes()) {
+  do {
     randoms.Sample();
-  }
+  } while (randoms.AreZeroes());
 
   // See figure 1 in the paper referenced above:
   //   A' = (1 / r₁)A
-- 
2.43.0


From 989e39ff0bb368316c4e521bd7404a0de5dfb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 71/87] fix: zero the unused Poseidon2 round constants

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 9c452a8..4d4b8f5 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -41,6 +41,10 @@ void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
       ark.row(i) = lfsr.GetFieldElementsRejectionSampling(config.state_len);
     } else {
       ark.row(i)[0] = lfsr.GetFieldElementsRejectionSampling(1)[0];
+      // The other elements aren't used, but they are compared and serialized.
+      for (size_t j = 1; j < config.state_len; ++j) {
+        ark.row(i)[j] = F::Zero();
+      }
     }
   }
   // TODO(chokobole): Enable generating |internal_diagonal_mins_one|.
-- 
2.43.0


From d17f95b4cb87eb994133844f0f58c9fcc926b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 72/87] fix: don't access BigInt limbs through pointers of
 another type

---
 tachyon/math/base/big_int.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 1e8556d..7711a3c 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1026,7 +1026,8 @@ struct BigInt {
       bits = 64;
     }
 
-    const T* limbs_ptr = reinterpret_cast<const T*>(limbs);
+    T limbs_ptr[sizeof(limbs) / sizeof(T)];
+    memcpy(limbs_ptr, limbs, sizeof(limbs));
     size_t limb_idx = bit_offset / bits;
     size_t bit_idx = bit_offset % bits;
 
@@ -1053,9 +1054,10 @@ struct BigInt {
   template <typename T>
   constexpr static BigInt FromMontgomery(const BigInt<N>& value,
                                          const BigInt<N>& modulus, T inverse) {
-    BigInt<N> r = value;
-    T* r_ptr = reinterpret_cast<T*>(r.limbs);
-    const T* m_ptr = reinterpret_cast<const T*>(modulus.limbs);
+    T r_ptr[sizeof(value.limbs) / sizeof(T)];
+    T m_ptr[sizeof(modulus.limbs) / sizeof(T)];
+    memcpy(r_ptr, value.limbs, sizeof(r_ptr));
+    memcpy(m_ptr, modulus.limbs, sizeof(m_ptr));
     size_t num = 0;
     MulResult<T> (*mul_add_with_carry)(T, T, T, T);
     if constexpr (std::is_same_v<T, uint32_t>) {
@@ -1076,6 +1078,8 @@ struct BigInt {
       }
       r_ptr[i] = result.hi;
     }
+    BigInt<N> r;
+    memcpy(r.limbs, r_ptr, sizeof(r_ptr));
     return r;
   }
 
@@ -1105,8 +1109,10 @@ struct BigInt {
   constexpr static void MontgomeryReduce(BigInt<2 * N>& r,
                                          const BigInt& modulus, T inverse,
                                          BigInt* out) {
-    T* r_ptr = reinterpret_cast<T*>(r.limbs);
-    const T* m_ptr = reinterpret_cast<const T*>(modulus.limbs);
+    T r_ptr[sizeof(r.limbs) / sizeof(T)];
+    T m_ptr[sizeof(modulus.limbs) / sizeof(T)];
+    memcpy(r_ptr, r.limbs, sizeof(r_ptr));
+    memcpy(m_ptr, modulus.limbs, sizeof(m_ptr));
     size_t num = 0;
     MulResult<T> (*mul_add_with_carry)(T, T, T, T);
     AddResult<T> (*add_with_carry)(T, T, T);
@@ -1133,7 +1139,7 @@ struct BigInt {
           add_with_carry(r_ptr[num + i], mul_result.hi, add_result.carry);
       r_ptr[num + i] = add_result.result;
     }
-    memcpy(&(*out)[0], &r[N], sizeof(uint64_t) * N);
+    memcpy(&(*out)[0], &r_ptr[num], sizeof(uint64_t) * N);
     Clamp<ModulusHasSpareBit>(modulus, out, add_result.carry);
   }
 };
-- 
2.43.0


From 6f565e5c3c48045369087fa65fd1045d85387d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:35 +0000
Subject: [PATCH 73/87] fix: WriteManyAt and ReadManyAt handle one value after
 another

WriteManyAt wrote every value at the same offset, and ReadManyAt with more
than one value did not compile (and would have read every value from the
same offset).
---
 tachyon/base/buffer/buffer.h           | 2 +-
 tachyon/base/buffer/read_only_buffer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..6579f3e 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -128,7 +128,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..6e4e5ad 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -199,7 +199,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -208,7 +208,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
-- 
2.43.0


From b252a5dd4dd8fdc412b7ee60675ddbbb0273621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:35 +0000
Subject: [PATCH 74/87] fix: don't pass null to memcpy for empty reads and
 writes

Reading or writing zero bytes with an unallocated buffer or a null source
passed null pointers to memcpy, which is undefined behaviour.
---
 tachyon/base/buffer/buffer.cc           | 4 +++-
 tachyon/base/buffer/read_only_buffer.cc | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.cc b/tachyon/base/buffer/buffer.cc
index 5570122..568f5ad 100644
--- a/tachyon/base/buffer/buffer.cc
+++ b/tachyon/base/buffer/buffer.cc
@@ -13,7 +13,9 @@ bool Buffer::WriteAt(size_t buffer_offset, const uint8_t* ptr, size_t size) {
   if (size_needed > buffer_len_) {
     if (!Grow(size_needed)) return false;
   }
-  memcpy(reinterpret_cast<char*>(buffer_) + buffer_offset, ptr, size);
+  if (size > 0) {
+    memcpy(reinterpret_cast<char*>(buffer_) + buffer_offset, ptr, size);
+  }
   buffer_offset_ = buffer_offset + size;
   return true;
 }
diff --git a/tachyon/base/buffer/read_only_buffer.cc b/tachyon/base/buffer/read_only_buffer.cc
index 82314e5..deedcd0 100644
--- a/tachyon/base/buffer/read_only_buffer.cc
+++ b/tachyon/base/buffer/read_only_buffer.cc
@@ -12,8 +12,10 @@ bool ReadOnlyBuffer::ReadAt(size_t buffer_offset, uint8_t* ptr,
   if (size_needed > buffer_len_) {
     return false;
   }
-  const char* buffer = reinterpret_cast<const char*>(buffer_);
-  memcpy(ptr, &buffer[buffer_offset], size);
+  if (size > 0) {
+    const char* buffer = reinterpret_cast<const char*>(buffer_);
+    memcpy(ptr, &buffer[buffer_offset], size);
+  }
   buffer_offset_ = buffer_offset + size;
   return true;
 }
-- 
2.43.0


From a6f648e1c5922e35a3a9f7f3e15025d6f7fdf36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:11 +0000
Subject: [PATCH 75/87] fix: write the bits of floating point values in big and
 little endian

Write of a float or double to a buffer with a set endian converted the value
to an integer, so that reading it back gave another value.
---
 tachyon/base/buffer/buffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 6579f3e..79e803a 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,8 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include <string.h>
+
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -84,11 +86,13 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
             std::enable_if_t<internal::IsBuiltinSerializable<T>::value && \
                              (sizeof(T) == bytes)>* = nullptr>            \
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
+    type bits_value;                                                      \
+    memcpy(&bits_value, &value, bytes);                                   \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset, bits_value);              \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset, bits_value);              \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
-- 
2.43.0


From 780af75f131166f4c46021a4fc29360e16bc494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:11 +0000
Subject: [PATCH 76/87] fix: serialize every byte of strings of wide characters

Only size() bytes of a wide string were written, so that the rest of it read
back as zero, unlike a pointer to wide characters, which is written whole.
---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From 85f4bc41355d57527a970811cdbc0dddc86c809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 77/87] fix: a moved StringBuffer doesn't point into the
 moved-from one

The contents of a short std::string are stored inside of the object, so after
moving a StringBuffer its buffer pointed into the other StringBuffer, which
may be gone.
---
 tachyon/base/buffer/string_buffer.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/string_buffer.h b/tachyon/base/buffer/string_buffer.h
index e26b543..6037998 100644
--- a/tachyon/base/buffer/string_buffer.h
+++ b/tachyon/base/buffer/string_buffer.h
@@ -15,10 +15,13 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
   StringBuffer& operator=(const StringBuffer& other) = delete;
   StringBuffer(StringBuffer&& other)
       : Buffer(std::move(other)),
-        owned_buffer_(std::move(other.owned_buffer_)) {}
+        owned_buffer_(std::move(other.owned_buffer_)) {
+    UpdateBuffer();
+  }
   StringBuffer& operator=(StringBuffer&& other) {
     Buffer::operator=(std::move(other));
     owned_buffer_ = std::move(other.owned_buffer_);
+    UpdateBuffer();
     return *this;
   }
   ~StringBuffer() override = default;
@@ -29,12 +32,18 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
 
   [[nodiscard]] bool Grow(size_t size) override {
     owned_buffer_.resize(size);
-    buffer_ = owned_buffer_.data();
-    buffer_len_ = owned_buffer_.size();
+    UpdateBuffer();
     return true;
   }
 
  protected:
+  // NOTE: The characters of a short string are inside of the string itself, so
+  // they don't stay at the same address when it is moved.
+  void UpdateBuffer() {
+    buffer_ = owned_buffer_.data();
+    buffer_len_ = owned_buffer_.size();
+  }
+
   std::string owned_buffer_;
 };
 
-- 
2.43.0


From bdda5ca5b6de40b1761e77b1cacb2cb90f8f21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 78/87] fix: moving a buffer keeps its endian

A moved buffer silently went back to the native endian, so that the rest was
written or read in another byte order.
---
 tachyon/base/buffer/read_only_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 6e4e5ad..3f25a1e 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
-- 
2.43.0


From 3e082b3d0ead044b435aa9f2ea2939a1c3751c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 79/87] fix: read strings with null characters from JSON

The string read back stopped at its first null character.
---
 tachyon/base/json/rapidjson_util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 17d3384..73aa0fe 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -194,7 +194,8 @@ class RapidJsonValueConverter<std::string> {
       *error = RapidJsonMismatchedTypeError(key, "string", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value =
+        std::string(json_value.GetString(), json_value.GetStringLength());
     return true;
   }
 };
@@ -213,7 +214,8 @@ class RapidJsonValueConverter<std::string_view> {
       *error = RapidJsonMismatchedTypeError(key, "string_view", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value =
+        std::string_view(json_value.GetString(), json_value.GetStringLength());
     return true;
   }
 };
-- 
2.43.0


From da015345cae0de920bfc5cce68ceeca2f1f04367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 80/87] fix: read doubles from JSON exactly

A double written to JSON could be read back as another one some ulps away,
and the largest float was refused as out of range.
---
 tachyon/base/json/json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 82a3388..6c8545e 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -17,7 +17,10 @@ namespace tachyon::base {
 template <typename T>
 bool ParseJson(std::string_view content, T* value, std::string* error) {
   rapidjson::Document document;
-  document.Parse(content.data(), content.length());
+  // NOTE: Without |kParseFullPrecisionFlag|, a double is read back as another one
+  // nearby.
+  document.Parse<rapidjson::kParseFullPrecisionFlag>(content.data(),
+                                                     content.length());
   if (document.HasParseError()) {
     *error =
         absl::Substitute("Failed to parse with error \"$0\" at offset $1",
-- 
2.43.0


From 4b19e70df898d3f5d77ce2ddc5441a41c460e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:42 +0000
Subject: [PATCH 81/87] fix: don't allocate what a serialized length asks for
 before checking it

Reading a string or a vector resized it to the length found in the buffer, so
that a few corrupted bytes made it throw or allocate any amount of memory
instead of returning false.
---
 tachyon/base/buffer/copyable.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 18ef5f6..8b58775 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -74,6 +74,8 @@ class Copyable<std::basic_string<CharTy>> {
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    size_t remaining_len = buffer.buffer_len() - buffer.buffer_offset();
+    if (size > remaining_len / sizeof(CharTy)) return false;
     value->resize(size);
     return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
                        size * sizeof(CharTy));
@@ -148,6 +150,9 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // NOTE: Every element takes at least 1 byte, so this refuses a |size| that
+    // can't be satisfied before allocating memory for it.
+    if (size > buffer.buffer_len() - buffer.buffer_offset()) return false;
     values->resize(size);
     for (T& value : (*values)) {
       if (!buffer.Read(&value)) return false;
-- 
2.43.0


From 1339a887b92e8eaef3e690f21704112bf2703de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 82/87] fix: check the dimensions of a serialized matrix

Negative or huge dimensions found in the buffer were passed to Eigen, which
writes out of bounds or throws, instead of returning false.
---
 tachyon/math/matrix/matrix_types.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tachyon/math/matrix/matrix_types.h b/tachyon/math/matrix/matrix_types.h
index 20f468a..ec5bb9e 100644
--- a/tachyon/math/matrix/matrix_types.h
+++ b/tachyon/math/matrix/matrix_types.h
@@ -71,6 +71,14 @@ class Copyable<Eigen::Matrix<Field, Rows, Cols, Options, MaxRows, MaxCols>> {
     Eigen::Index rows, cols;
     Matrix matrix_tmp;
     if (!buffer.ReadMany(&rows, &cols)) return false;
+    if (rows < 0 || cols < 0) return false;
+    // NOTE: Every element takes at least 1 byte, so this refuses dimensions that
+    // can't be satisfied before allocating memory for them.
+    size_t remaining_len = buffer.buffer_len() - buffer.buffer_offset();
+    if (rows != 0 && static_cast<size_t>(cols) >
+                         remaining_len / static_cast<size_t>(rows)) {
+      return false;
+    }
     if (Rows != Eigen::Dynamic && Cols != Eigen::Dynamic) {
       if (rows != Rows || cols != Cols) return false;
     } else if (Rows != Eigen::Dynamic) {
@@ -132,6 +140,10 @@ class Copyable<Eigen::DiagonalMatrix<Field, Size, MaxSize>> {
     Eigen::Index size;
     DiagonalVector vector_tmp;
     if (!buffer.ReadMany(&size)) return false;
+    if (size < 0 || static_cast<size_t>(size) >
+                        buffer.buffer_len() - buffer.buffer_offset()) {
+      return false;
+    }
     if (Size != Eigen::Dynamic) {
       if (size != Size) return false;
     } else {
-- 
2.43.0


From 4c70ce916027646a761708c7e1c96229e2c7419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 83/87] fix: refuse JSON that isn't an object where an object
 is expected

Members were looked up in whatever value was there, which is undefined
behaviour (an assertion when they are enabled) unless it is an object.
---
 tachyon/base/json/json.h           | 2 +-
 tachyon/base/json/rapidjson_util.h | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 6c8545e..4bdd4e2 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -28,7 +28,7 @@ bool ParseJson(std::string_view content, T* value, std::string* error) {
                          document.GetErrorOffset());
     return false;
   }
-  return RapidJsonValueConverter<T>::To(document.GetObject(), "", value, error);
+  return RapidJsonValueConverter<T>::To(document, "", value, error);
 }
 
 // Load from file and parse json string and populate |value| on success.
diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 73aa0fe..4f5c1a4 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -346,7 +346,12 @@ void AddJsonElement(rapidjson::Value& json_value, std::string_view key,
 template <typename T>
 bool ParseJsonElement(const rapidjson::Value& json_value, std::string_view key,
                       T* value, std::string* error) {
-  auto it = json_value.FindMember(key.data());
+  if (!json_value.IsObject()) {
+    *error = RapidJsonMismatchedTypeError(key, "object", json_value);
+    return false;
+  }
+  auto it = json_value.FindMember(
+      rapidjson::Value(rapidjson::StringRef(key.data(), key.length())));
   if (it == json_value.MemberEnd()) {
     *error = absl::Substitute("\"$0\" key is not found", key);
     return false;
-- 
2.43.0


From 7980d8fd0ab3bc22548550f66189c4b32623485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:12 +0000
Subject: [PATCH 84/87] fix: refuse serialized polynomials whose degree is too
 large

They failed a CHECK in the constructor, so that reading untrusted bytes or
JSON ended the process instead of returning false.
---
 .../polynomials/multivariate/multilinear_dense_evaluations.h | 2 ++
 .../polynomials/univariate/univariate_dense_coefficients.h   | 5 +++++
 tachyon/math/polynomials/univariate/univariate_evaluations.h | 5 +++++
 .../polynomials/univariate/univariate_sparse_coefficients.h  | 5 +++++
 4 files changed, 17 insertions(+)

diff --git a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
index fda7c47..4df686b 100644
--- a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
+++ b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
@@ -229,6 +229,8 @@ class Copyable<math::MultilinearDenseEvaluations<F, MaxDegree>> {
                        math::MultilinearDenseEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evaluations;
     if (!buffer.Read(&evaluations)) return false;
+    if (base::bits::SafeLog2Ceiling(evaluations.size()) > MaxDegree)
+      return false;
     *evals =
         math::MultilinearDenseEvaluations<F, MaxDegree>(std::move(evaluations));
     return true;
diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0c79a9a..27d4bbb 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -319,6 +319,7 @@ class Copyable<math::UnivariateDenseCoefficients<F, MaxDegree>> {
       math::UnivariateDenseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<F> raw_coeff;
     if (!buffer.Read(&raw_coeff)) return false;
+    if (!raw_coeff.empty() && raw_coeff.size() - 1 > MaxDegree) return false;
     *coeffs =
         math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(raw_coeff));
     return true;
@@ -348,6 +349,10 @@ class RapidJsonValueConverter<math::UnivariateDenseCoefficients<F, MaxDegree>> {
     std::vector<F> coeffs;
     if (!ParseJsonElement(json_value, "coefficients", &coeffs, error))
       return false;
+    if (!coeffs.empty() && coeffs.size() - 1 > MaxDegree) {
+      *error = absl::Substitute("degree of \"$0\" is too large", key);
+      return false;
+    }
     *value = math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(coeffs));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluations.h b/tachyon/math/polynomials/univariate/univariate_evaluations.h
index 6955448..a549856 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluations.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluations.h
@@ -299,6 +299,7 @@ class Copyable<math::UnivariateEvaluations<F, MaxDegree>> {
                        math::UnivariateEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evals_vec;
     if (!buffer.Read(&evals_vec)) return false;
+    if (!evals_vec.empty() && evals_vec.size() - 1 > MaxDegree) return false;
     *evals = math::UnivariateEvaluations<F, MaxDegree>(evals_vec);
     return true;
   }
@@ -327,6 +328,10 @@ class RapidJsonValueConverter<math::UnivariateEvaluations<F, MaxDegree>> {
     std::vector<F> evals;
     if (!ParseJsonElement(json_value, "evaluations", &evals, error))
       return false;
+    if (!evals.empty() && evals.size() - 1 > MaxDegree) {
+      *error = absl::Substitute("degree of \"$0\" is too large", key);
+      return false;
+    }
     *value = math::UnivariateEvaluations<F, MaxDegree>(std::move(evals));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 364c6d7..13aef5b 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -356,6 +356,7 @@ class Copyable<math::UnivariateSparseCoefficients<F, MaxDegree>> {
       math::UnivariateSparseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!buffer.Read(&terms)) return false;
+    if (!terms.empty() && terms.back().degree > MaxDegree) return false;
     *coeffs = math::UnivariateSparseCoefficients<F, MaxDegree>(terms);
     return true;
   }
@@ -409,6 +410,10 @@ class RapidJsonValueConverter<
                  std::string* error) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!ParseJsonElement(json_value, "terms", &terms, error)) return false;
+    if (!terms.empty() && terms.back().degree > MaxDegree) {
+      *error = absl::Substitute("degree of \"$0\" is too large", key);
+      return false;
+    }
     *value = math::UnivariateSparseCoefficients<F, MaxDegree>(std::move(terms));
     return true;
   }
-- 
2.43.0


From 631ef8783ac58407ada1395bba40d776f181fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 85/87] fix: refuse serialized sparse polynomials whose terms
 aren't sorted

Every operation on them, including the check of the degree, relies on
the order of the terms.
---
 .../polynomials/univariate/univariate_sparse_coefficients.h  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 13aef5b..18994cb 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -356,6 +356,7 @@ class Copyable<math::UnivariateSparseCoefficients<F, MaxDegree>> {
       math::UnivariateSparseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!buffer.Read(&terms)) return false;
+    if (!base::ranges::is_sorted(terms.begin(), terms.end())) return false;
     if (!terms.empty() && terms.back().degree > MaxDegree) return false;
     *coeffs = math::UnivariateSparseCoefficients<F, MaxDegree>(terms);
     return true;
@@ -410,6 +411,10 @@ class RapidJsonValueConverter<
                  std::string* error) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!ParseJsonElement(json_value, "terms", &terms, error)) return false;
+    if (!base::ranges::is_sorted(terms.begin(), terms.end())) {
+      *error = absl::Substitute("terms of \"$0\" are not sorted", key);
+      return false;
+    }
     if (!terms.empty() && terms.back().degree > MaxDegree) {
       *error = absl::Substitute("degree of \"$0\" is too large", key);
       return false;
-- 
2.43.0


From 65aee9e4f8357cdd4956210e02ab38749d801957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:40 +0000
Subject: [PATCH 86/87] fix: parsing deeply nested JSON doesn't overflow the
 stack

---
 tachyon/base/json/json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 4bdd4e2..cc6715a 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -18,9 +18,11 @@ template <typename T>
 bool ParseJson(std::string_view content, T* value, std::string* error) {
   rapidjson::Document document;
   // NOTE: Without |kParseFullPrecisionFlag|, a double is read back as another one
-  // nearby.
-  document.Parse<rapidjson::kParseFullPrecisionFlag>(content.data(),
-                                                     content.length());
+  // nearby. Without |kParseIterativeFlag|, deeply nested |content| overflows the
+  // stack.
+  document.Parse<rapidjson::kParseFullPrecisionFlag |
+                 rapidjson::kParseIterativeFlag>(content.data(),
+                                                 content.length());
   if (document.HasParseError()) {
     *error =
         absl::Substitute("Failed to parse with error \"$0\" at offset $1",
-- 
2.43.0


From ebdb475609273460a9cb476c497c0234798d27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:34 +0000
Subject: [PATCH 87/87] fix: ReadPtr refuses a count whose size in bytes
 overflows

---
 tachyon/base/buffer/read_only_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 3f25a1e..328a482 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -139,16 +139,16 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
-    base::CheckedNumeric<size_t> len = buffer_offset;
+    base::CheckedNumeric<size_t> size = sizeof(T);
+    size *= ptr_num;
     size_t size_needed;
-    if (!(len + size).AssignIfValid(&size_needed)) return false;
+    if (!(size + buffer_offset).AssignIfValid(&size_needed)) return false;
     if (size_needed > buffer_len_) {
       return false;
     }
     const char* buffer = reinterpret_cast<const char*>(buffer_);
     *ptr = const_cast<T*>(reinterpret_cast<const T*>(&buffer[buffer_offset]));
-    buffer_offset_ = buffer_offset + size;
+    buffer_offset_ = size_needed;
     return true;
   }
 
-- 
2.43.0


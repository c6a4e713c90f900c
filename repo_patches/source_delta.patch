From de2bbd7bcfc0decdbac79fd2fa4abe7372ec15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:59 +0000
Subject: [PATCH 01/45] fix: out-of-bounds access when decoding non-ASCII
 characters as hexadecimal

---
 base/hexadecimal_body.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index 47bd0cc..5ecb069 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -107,8 +107,11 @@ void HexadecimalEncoder<null_terminated>::Decode(Array<char const> input,
   for (char const* const input_end = input.data + input.size;
        input.data != input_end;
        input.data += 2, ++output.data) {
-    *output.data = (hexadecimal_digits_to_nibble[*input.data] << 4) |
-                   hexadecimal_digits_to_nibble[*(input.data + 1)];
+    // Beware, `char` may be signed.
+    auto const high = static_cast<std::uint8_t>(*input.data);
+    auto const low = static_cast<std::uint8_t>(*(input.data + 1));
+    *output.data = (hexadecimal_digits_to_nibble[high] << 4) |
+                   hexadecimal_digits_to_nibble[low];
   }
 }
 
-- 
2.43.0


From 3cc794072ee14d8a2ffa9d24fc5a9c4047f1dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/45] fix: stop the recurring thread before destroying the
 members that it uses

---
 base/recurring_thread.hpp      |  6 ++++++
 base/recurring_thread_body.hpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/base/recurring_thread.hpp b/base/recurring_thread.hpp
index 2ccc6c4..f3455b6 100644
--- a/base/recurring_thread.hpp
+++ b/base/recurring_thread.hpp
@@ -65,6 +65,9 @@ class RecurringThread : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread, as it uses the members of this object.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
@@ -95,6 +98,9 @@ class RecurringThread<Input, void> : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread, as it uses the members of this object.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
diff --git a/base/recurring_thread_body.hpp b/base/recurring_thread_body.hpp
index e05b98b..fbd4bac 100644
--- a/base/recurring_thread_body.hpp
+++ b/base/recurring_thread_body.hpp
@@ -58,6 +58,11 @@ RecurringThread<Input, Output>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input, typename Output>
+RecurringThread<Input, Output>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input, typename Output>
 void RecurringThread<Input, Output>::Put(Input input) {
   absl::MutexLock l(&input_output_lock_);
@@ -105,6 +110,11 @@ RecurringThread<Input, void>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input>
+RecurringThread<Input, void>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input>
 void RecurringThread<Input, void>::Put(Input input) {
   absl::MutexLock l(&input_lock_);
-- 
2.43.0


From 035d3e0cfcc63eff3aaae1f8cafba36774cacce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 03/45] fix: the AVX512_FP16 feature flag is in EDX, not ECX
 (which has KL)

---
 base/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/cpuid.cpp b/base/cpuid.cpp
index d88877e..1c62918 100644
--- a/base/cpuid.cpp
+++ b/base/cpuid.cpp
@@ -80,7 +80,7 @@ PRINCIPIA_CPUID_FLAG(AVX2, 0x07, EBX, 5);       // Advanced Vector eXtensions 2.
 PRINCIPIA_CPUID_FLAG(AVX512F, 0x07, EBX, 16);   // AVX-512 Foundation.
 PRINCIPIA_CPUID_FLAG(AVX512DQ, 0x07, EBX, 17);  // DWORD and QWORD instructions.
 PRINCIPIA_CPUID_FLAG(AVX512VL, 0x07, EBX, 31);  // Vector Length Extensions.
-PRINCIPIA_CPUID_FLAG(AVX512_FP16, 0x07, ECX, 23);  // IEEE-754 binary16.
+PRINCIPIA_CPUID_FLAG(AVX512_FP16, 0x07, EDX, 23);  // IEEE-754 binary16.
 
 CPUIDFeatureFlag::CPUIDFeatureFlag(std::string_view const name,
                                    std::uint32_t const leaf,
-- 
2.43.0


From 114f7c4252efdb491083692b9e91402652fed651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 04/45] fix: compare all the bytes of arrays whose elements are
 larger than a byte

---
 base/array_body.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/array_body.hpp b/base/array_body.hpp
index 16f4ff9..075b0e2 100644
--- a/base/array_body.hpp
+++ b/base/array_body.hpp
@@ -182,12 +182,14 @@ BoundedArray<Element, max_size>::size() const {
 
 template<std::integral LeftElement, std::integral RightElement>
 bool operator==(Array<LeftElement> left, Array<RightElement> right) {
+  static_assert(sizeof(LeftElement) == sizeof(RightElement));
   if (left.size != right.size) {
     return false;
   }
   return std::memcmp(left.data,
                      right.data,
-                     static_cast<std::size_t>(right.size)) == 0;
+                     static_cast<std::size_t>(right.size) *
+                         sizeof(RightElement)) == 0;
 }
 
 template<std::integral LeftElement, std::integral RightElement>
-- 
2.43.0


From ba513c20f11797622ea94bbe29f149a9860135ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 05/45] fix: truncation of a DoublePrecision whose value has a
 fractional part

---
 numerics/double_precision_body.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/numerics/double_precision_body.hpp b/numerics/double_precision_body.hpp
index 8337ca6..8b8a6a4 100644
--- a/numerics/double_precision_body.hpp
+++ b/numerics/double_precision_body.hpp
@@ -280,12 +280,15 @@ DoublePrecision<Product<T, U>> Scale(T const & scale,
 
 template<std::floating_point T>
 DoublePrecision<T> Trunc(DoublePrecision<T> const& a) {
-  // The fractional point cannot be in both `value` and `error`.  It is
-  // important to round both elements consistently based on the sign of `value`,
-  // so we cannot use `trunc`.
+  // The fractional point cannot be in both `value` and `error`: if it is in
+  // `value`, all of `error` is fractional and must be dropped.  It is important
+  // to round both elements consistently based on the sign of `value`, so we
+  // cannot use `trunc`.
   DoublePrecision<T> result(uninitialized);
   result.value = a.value > 0.0 ? std::floor(a.value) : std::ceil(a.value);
-  result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
+  result.error = result.value != a.value ? 0.0
+                 : a.value > 0.0         ? std::floor(a.error)
+                                         : std::ceil(a.error);
   return result;
 }
 
-- 
2.43.0


From 250af258a3f0cdec91eb5be8c4f50857840a0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 06/45] fix: ScaleB flushed large negative numbers to zero for
 large negative exponents

---
 numerics/scale_b_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numerics/scale_b_body.hpp b/numerics/scale_b_body.hpp
index 634ea64..f45ebdb 100644
--- a/numerics/scale_b_body.hpp
+++ b/numerics/scale_b_body.hpp
@@ -15,8 +15,9 @@ constexpr SourceFormat ScaleB(SourceFormat const x, LogBFormat const N) {
   SourceFormat result = x;
   if (N < 0) {
     for (LogBFormat k = 0; k > N; --k) {
-      if (result < std::numeric_limits<SourceFormat>::radix *
-                       std::numeric_limits<SourceFormat>::min()) {
+      if ((result < 0 ? -result : result) <
+          std::numeric_limits<SourceFormat>::radix *
+              std::numeric_limits<SourceFormat>::min()) {
         SourceFormat radix_power = 1;
         for (; k > N; --k) {
           radix_power *= std::numeric_limits<SourceFormat>::radix;
-- 
2.43.0


From 2649c43e5339f68c488a1e2ceb450a4c18b4886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 07/45] fix: correct the rounding of the cube root of negative
 numbers

---
 numerics/cbrt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index d648e9b..fb4ff04 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -115,7 +115,7 @@ bool CorrectionPossiblyNeeded(double const r₀,
   // very close to a tie (for r̃ ≠ r₀) or to a representable number (for r̃ = r₀).
   // On the other hand, it is hard to predict whether r̃ = r₀, i.e., whether r is
   // closer to a representable number than to a tie.
-  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * r₀ && r̃ != r₀;
+  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * std::abs(r₀) && r̃ != r₀;
 }
 
 template<FMAPresence fma_presence>
-- 
2.43.0


From 3fed6cfbd8cc620c48c619c4a7c495595882d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 08/45] =?UTF-8?q?fix:=20extend=20the=20table=20of=204/?=
 =?UTF-8?q?=CF=80=20so=20that=20the=20reduction=20of=20huge=20angles=20doe?=
 =?UTF-8?q?sn't=20access=20it=20out=20of=20bounds?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mathematica/payne_hanek.wl         | 16 +++--
 numerics/angle_reduction_body.hpp  |  8 ++-
 numerics/payne_hanek.mathematica.h | 94 ++++++++++++++++--------------
 3 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/mathematica/payne_hanek.wl b/mathematica/payne_hanek.wl
index 4f80cfe..0a7e40f 100644
--- a/mathematica/payne_hanek.wl
+++ b/mathematica/payne_hanek.wl
@@ -55,7 +55,7 @@
 
 
 (* ::Input:: *)
-(*smallestExponent=2^(binary64[[2]]-1)+binary64[[1]]-3*)
+(*smallestExponent=2^(binary64[[2]]-1)+binary64[[1]]+61*)
 
 
 (* ::Input:: *)
@@ -82,11 +82,15 @@
 
 
 (* ::Text:: *)
-(*Note that the last chunk is not exactly representable because of progressive underflow.*)
+(*The chunks are scaled so that the last ones are not affected by progressive underflow.*)
 
 
 (* ::Input:: *)
-(*chunkStrings=MapIndexed[hexFloatLiteral[#1 [[1]],#1[[2]]]&,chunks]*)
+(*scaleExponent=128*)
+
+
+(* ::Input:: *)
+(*chunkStrings=Map[hexFloatLiteral[#[[1]],#[[2]]+scaleExponent]&,chunks]*)
 
 
 (* ::Input:: *)
@@ -104,7 +108,10 @@
 (**)
 (*constexpr std::int64_t PayneHanekBitsPerChunk = "<>ToString[bitsPerChunk]<>";*)
 (**)
-(*// Chunks of "<>ToString[bitsPerChunk]<>" bits of 4/\[Pi], up to exponent "<>ToString[-smallestExponent]<>".*)
+(*// The chunks below are scaled by 2^"<>ToString[scaleExponent]<>" so that none of them is subnormal.*)
+(*constexpr std::int64_t PayneHanekScaleExponent = "<>ToString[scaleExponent]<>";*)
+(**)
+(*// Chunks of "<>ToString[bitsPerChunk]<>" bits of 4/\[Pi], up to exponent "<>ToString[-bitsPerChunk Length[chunkStrings]+1]<>".*)
 (*constexpr std::array<double, "<>ToString[Length[chunkStrings]]<>"> PayneHanekChunks{\n    "<>*)
 (*StringRiffle[chunkStrings,",\n    "]*)
 (*<>"};*)
@@ -113,6 +120,7 @@
 (**)
 (*using internal::PayneHanekBitsPerChunk;*)
 (*using internal::PayneHanekChunks;*)
+(*using internal::PayneHanekScaleExponent;*)
 (**)
 (*}  // namespace _payne_hanek*)
 (*}  // namespace numerics*)
diff --git a/numerics/angle_reduction_body.hpp b/numerics/angle_reduction_body.hpp
index b066d29..b84f569 100644
--- a/numerics/angle_reduction_body.hpp
+++ b/numerics/angle_reduction_body.hpp
@@ -84,13 +84,15 @@ void PayneHanekReduction(Angle const& x,
   // The bits of the chunks must be scaled up by 2^(n + e + 1 + p) to make
   // `Medium(e, p)` an integer.  The computation of `h` then involves a
   // multiplication by 2^(-2n -p).  All together, this results in the scaling
-  // below for the chunk.
-  double const scale = std::scalbn(1.0, e - n + 1);
+  // below for the chunk, taking into account the scaling of
+  // `PayneHanekChunks`.
+  double const scale = std::scalbn(1.0, e - n + 1 - PayneHanekScaleExponent);
 
   // The most significant chunk has extra bits that we don't need because they
   // are part of `Left(e, p)`.  Drop them: the first bit that is preserved here
   // is the one numbered n - e + 1.
-  double const medium_first_mod = std::scalbn(1.0, n - e + 2);
+  double const medium_first_mod =
+      std::scalbn(1.0, n - e + 2 + PayneHanekScaleExponent);
 
   DoublePrecision<double> h;
   for (std::int64_t i = medium_last; i >= medium_first; --i) {
diff --git a/numerics/payne_hanek.mathematica.h b/numerics/payne_hanek.mathematica.h
index 1006966..7bdf295 100644
--- a/numerics/payne_hanek.mathematica.h
+++ b/numerics/payne_hanek.mathematica.h
@@ -10,55 +10,61 @@ namespace internal {
 
 constexpr std::int64_t PayneHanekBitsPerChunk = 26;
 
-// Chunks of 26 bits of 4/π, up to exponent -1074.
-constexpr std::array<double, 42> PayneHanekChunks{
-    0x28b'e60d.0p-25,
-    0x2e4'e441.0p-51,
-    0x14a'7f09.0p-77,
-    0x357'd1f5.0p-103,
-    0x0d3'7703.0p-129,
-    0x1b6'2959.0p-155,
-    0x24f'10e4.0p-181,
-    0x041'fe51.0p-207,
-    0x18e'af7a.0p-233,
-    0x3bc'561b.0p-259,
-    0x1c9'1b8e.0p-285,
-    0x242'4dd2.0p-311,
-    0x380'1924.0p-337,
-    0x2ee'a09d.0p-363,
-    0x064'873f.0p-389,
-    0x21d'eb1c.0p-415,
-    0x2c4'a69c.0p-441,
-    0x3ee'8823.0p-467,
-    0x17d'4bae.0p-493,
-    0x344'84e9.0p-519,
-    0x271'c09a.0p-545,
-    0x345'f7e4.0p-571,
-    0x04e'6475.0p-597,
-    0x239'8353.0p-623,
-    0x0e7'd272.0p-649,
-    0x045'f8bb.0p-675,
-    0x37e'4a0e.0p-701,
-    0x31f'f897.0p-727,
-    0x3ff'7816.0p-753,
-    0x180'fef2.0p-779,
-    0x3c4'62d6.0p-805,
-    0x20a'6d1f.0p-831,
-    0x1b4'd9fb.0p-857,
-    0x0f2'7cb0.0p-883,
-    0x26d'd3d1.0p-909,
-    0x23f'669e.0p-935,
-    0x17f'a8b5.0p-961,
-    0x352'7bac.0p-987,
-    0x1fa'f97c.0p-1013,
-    0x17b'3d07.0p-1039,
-    0x0e7'de29.0p-1065,
-    0x129'2ea6.0p-1091};
+// The chunks below are scaled by 2^128 so that none of them is subnormal.
+constexpr std::int64_t PayneHanekScaleExponent = 128;
+
+// Chunks of 26 bits of 4/π, up to exponent -1143.
+constexpr std::array<double, 44> PayneHanekChunks{
+    0x28b'e60d.0p103,
+    0x2e4'e441.0p77,
+    0x14a'7f09.0p51,
+    0x357'd1f5.0p25,
+    0x0d3'7703.0p-1,
+    0x1b6'2959.0p-27,
+    0x24f'10e4.0p-53,
+    0x041'fe51.0p-79,
+    0x18e'af7a.0p-105,
+    0x3bc'561b.0p-131,
+    0x1c9'1b8e.0p-157,
+    0x242'4dd2.0p-183,
+    0x380'1924.0p-209,
+    0x2ee'a09d.0p-235,
+    0x064'873f.0p-261,
+    0x21d'eb1c.0p-287,
+    0x2c4'a69c.0p-313,
+    0x3ee'8823.0p-339,
+    0x17d'4bae.0p-365,
+    0x344'84e9.0p-391,
+    0x271'c09a.0p-417,
+    0x345'f7e4.0p-443,
+    0x04e'6475.0p-469,
+    0x239'8353.0p-495,
+    0x0e7'd272.0p-521,
+    0x045'f8bb.0p-547,
+    0x37e'4a0e.0p-573,
+    0x31f'f897.0p-599,
+    0x3ff'7816.0p-625,
+    0x180'fef2.0p-651,
+    0x3c4'62d6.0p-677,
+    0x20a'6d1f.0p-703,
+    0x1b4'd9fb.0p-729,
+    0x0f2'7cb0.0p-755,
+    0x26d'd3d1.0p-781,
+    0x23f'669e.0p-807,
+    0x17f'a8b5.0p-833,
+    0x352'7bac.0p-859,
+    0x1fa'f97c.0p-885,
+    0x17b'3d07.0p-911,
+    0x0e7'de29.0p-937,
+    0x129'2ea6.0p-963,
+    0x2fe'd7ec.0p-989,
+    0x11f'8d5d.0p-1015};
 
 }  // namespace internal
 
 using internal::PayneHanekBitsPerChunk;
 using internal::PayneHanekChunks;
+using internal::PayneHanekScaleExponent;
 
 }  // namespace _payne_hanek
 }  // namespace numerics
-- 
2.43.0


From c4a277a0e50a879701576223b3a294fc66d8e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 09/45] fix: avoid underflows in the computation of cube roots
 near the lower bound of the unscaled range

---
 numerics/cbrt.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index fb4ff04..5d50483 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -177,17 +177,18 @@ static const __m128d round_toward_zero_26_bits =
 namespace method_3²ᴄZ5¹ {
 
 // No overflow or underflow occurs in intermediate computations for
-// y ∈ [y₁, y₂].  The limiting expression is the denominator of step 4, wherein
-// the 8th power of x, which is approximately the 8th power of ∛y, appears. The
-// the 9th power of ∛y, i.e., cube of y, does not overflow for y ∈ [y₁, y₂].
+// y ∈ [y₁, y₂].  The limiting expression is the numerator of step 4, which is
+// approximately the 9th power of ∛y, i.e., the cube of y, multiplied by
+// (x³ - y) / y, whose magnitude is at most 2⁻¹⁴.  The bounds are such that, when
+// that numerator is subnormal, the error due to the underflow is negligible.
 // NOTE(egg): the σs do not rescale enough to put the least normal or greatest
 // finite magnitudes inside the non-rescaling range; for very small and very
 // large values, rescaling occurs twice.
-constexpr double y₁ = 0x1p-340;
-constexpr double σ₁ = 0x1p-227;
+constexpr double y₁ = 0x1p-333;
+constexpr double σ₁ = 0x1p-225;
 constexpr double σ₁⁻³ = 1 / (σ₁ * σ₁ * σ₁);
-constexpr double y₂ = 0x1p341;
-constexpr double σ₂ = 0x1p227;
+constexpr double y₂ = 0x1p342;
+constexpr double σ₂ = 0x1p225;
 constexpr double σ₂⁻³ = 1 / (σ₂ * σ₂ * σ₂);
 static_assert(σ₁⁻³ * y₁ == y₂);
 static_assert(σ₂⁻³ * y₂ == y₁);
-- 
2.43.0


From 999dc9eb4566f204d63ec48d5cbf32b90c353945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 10/45] =?UTF-8?q?fix:=20use=20the=20slow=20path=20for=20an?=
 =?UTF-8?q?gles=20so=20close=20to=20a=20multiple=20of=20=CF=80/2=20that=20?=
 =?UTF-8?q?their=20reduction=20is=20not=20accurate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 numerics/sin_cos.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/numerics/sin_cos.cpp b/numerics/sin_cos.cpp
index 6702111..380f398 100644
--- a/numerics/sin_cos.cpp
+++ b/numerics/sin_cos.cpp
@@ -2,6 +2,7 @@
 
 #include <immintrin.h>
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <utility>
@@ -97,6 +98,8 @@ constexpr double sin_near_zero_cutoff =
 
 constexpr std::int64_t κ₃ = 18;
 
+constexpr double payne_hanek_x_reduced_threshold = 1.0 / (1LL << κ₃);
+
 constexpr double e_sin_near_zero = 0x1.0000'D28F'8E40'4p0;  // 2^-70.281.
 constexpr double e_sin = 0x1.0001'94C0'D077'2p0;  // 2^-69.339.
 constexpr double e_cos = 0x1.0001'58B5'12B3'2p0;  // 2^-69.570.
@@ -301,7 +304,14 @@ FORCE_INLINE void PayneHanekReduction(Argument const x,
   _angle_reduction::PayneHanekReduction<61>(
       x_double, x_reduced_double, quadrant);
   x_reduced.value = M128D(x_reduced_double.value);
-  x_reduced.error = M128D(x_reduced_double.error);
+  // The accuracy of this reduction is absolute, not relative: for an angle that
+  // is very close to a multiple of π / 2 the reduced angle has so few correct
+  // bits that the rounding test would be meaningless.  Make sure that we use
+  // the slow path in that case.
+  x_reduced.error =
+      std::abs(x_reduced_double.value) < payne_hanek_x_reduced_threshold
+          ? m128d::quiet_NaN
+          : M128D(x_reduced_double.error);
 }
 
 // This is the reduction technique described in [BDL09].  We are following
-- 
2.43.0


From 79f4974e7bc43f09ac002140d0b19026422006f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 11/45] fix: DebugString truncated the text of numbers at high
 precision

The buffer held 50 characters, so with a precision of 43 or more the text was
truncated and padded with nulls.
---
 quantities/quantities_body.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantities/quantities_body.hpp b/quantities/quantities_body.hpp
index 7472454..fd26092 100644
--- a/quantities/quantities_body.hpp
+++ b/quantities/quantities_body.hpp
@@ -184,13 +184,14 @@ std::string Format() {
 }
 
 inline std::string DebugString(double const number, int const precision) {
-  std::string result;
-  result.resize(50);
-  int const size = snprintf(result.data(), result.size(),
-                            ("%+." + std::to_string(precision) + "e").c_str(),
-                            number);
+  std::string const format = "%+." + std::to_string(precision) + "e";
+  int const size = snprintf(nullptr, 0, format.c_str(), number);
   CHECK_LE(0, size);
+  std::string result;
+  // The terminating null is written over the null which the string always has
+  // past its end.
   result.resize(size);
+  snprintf(result.data(), size + 1, format.c_str(), number);
   return result;
 }
 
-- 
2.43.0


From e6925d0ee6e5747f92f4fc8a385982cf7b971aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 12/45] fix: R3x3Matrix::Solve chose its pivots in the original
 matrix

The pivots must be chosen among the elements of the Schur complement; some
well-conditioned matrices, e.g., {{0, 0, 1}, {1, 0, 0}, {1, 1, 0}}, were deemed
singular, and others lost accuracy.
---
 geometry/r3x3_matrix_body.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/geometry/r3x3_matrix_body.hpp b/geometry/r3x3_matrix_body.hpp
index 227101b..3bdd801 100644
--- a/geometry/r3x3_matrix_body.hpp
+++ b/geometry/r3x3_matrix_body.hpp
@@ -181,6 +181,14 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (int k = 0; k < 3; ++k) {
+    // Reduce the column from which the pivot is chosen: the elements that
+    // matter are those of the Schur complement, not the original ones.
+    for (int i = k; i < 3; ++i) {
+      for (int j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     int r = -1;
     Scalar max{};
@@ -197,7 +205,8 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
     std::swap(b[k], b[r]);
     CHECK_NE(Scalar{}, A(k, k)) << *this << " is singular";
 
-    for (int j = k; j < 3; ++j) {
+    U(k, k) = A(k, k);
+    for (int j = k + 1; j < 3; ++j) {
       Scalar U_kj = A(k, j);
       for (int i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -205,11 +214,7 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
       U(k, j) = U_kj;
     }
     for (int i = k + 1; i < 3; ++i) {
-      Scalar L_ik = A(i, k);
-      for (int j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 82546ab676d2dcb5c7d48f1527e02b6b4acab605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 13/45] fix: negate the imaginary part when subtracting a
 complex number from a real

---
 geometry/complexification_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/complexification_body.hpp b/geometry/complexification_body.hpp
index 3305f69..3642cc7 100644
--- a/geometry/complexification_body.hpp
+++ b/geometry/complexification_body.hpp
@@ -110,7 +110,7 @@ Complexification<Difference<L, Vector>> operator-(
     L const& left,
     Complexification<Vector> const& right) {
   return Complexification<Difference<L, Vector>>{left - right.real_part(),
-                                                 right.imaginary_part()};
+                                                 -right.imaginary_part()};
 }
 
 template<typename Vector, typename R>
-- 
2.43.0


From 2071aded74d0f290fd14f1e593ab81484cf668a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 14/45] fix: find the hidden part of a segment one end of which
 is in quadrature with the sphere

---
 geometry/perspective_body.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/geometry/perspective_body.hpp b/geometry/perspective_body.hpp
index cd1d9c6..1b5c901 100644
--- a/geometry/perspective_body.hpp
+++ b/geometry/perspective_body.hpp
@@ -237,8 +237,10 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
 
   // P is a point of the plane KAB where a line going through K is tangent to
   // the circle .  It is such that:
-  //   PH = γ * KA + δ * KB
-  // where γ and δ are computed by solving the system:
+  //   PH = γ * KU + δ * KV
+  // where U and V are A and B, except that they are swapped if KA is so close to
+  // being orthogonal to KH that the division by KU·KH which yields γ would be
+  // ill-conditioned, and where γ and δ are computed by solving the system:
   //   PH² = r²
   //   PH·KH = r²
   // We expect that there are two such points because the sphere intersects the
@@ -246,10 +248,17 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
   // may cause the quadratic equation to have no solution.
   auto const KAKH = InnerProduct(KA, KH);
   auto const KBKH = InnerProduct(KB, KH);
-  auto const a0 = r² * (r² * KA² - KAKH * KAKH);
-  auto const a1 = 2.0 * r² * (KAKB * KAKH - KA² * KBKH);
+  bool const is_ordered = KAKH * KAKH * KB² >= 1e-4 * KBKH * KBKH * KA²;
+  Displacement<FromFrame> const& KU = is_ordered ? KA : KB;
+  Displacement<FromFrame> const& KV = is_ordered ? KB : KA;
+  auto const& KU² = is_ordered ? KA² : KB²;
+  auto const& KV² = is_ordered ? KB² : KA²;
+  auto const& KUKH = is_ordered ? KAKH : KBKH;
+  auto const& KVKH = is_ordered ? KBKH : KAKH;
+  auto const a0 = r² * (r² * KU² - KUKH * KUKH);
+  auto const a1 = 2.0 * r² * (KAKB * KUKH - KU² * KVKH);
   auto const a2 =
-      KB² * KAKH * KAKH - 2.0 * KAKB * KAKH * KBKH + KA² * KBKH * KBKH;
+      KV² * KUKH * KUKH - 2.0 * KAKB * KUKH * KVKH + KU² * KVKH * KVKH;
   BoundedArray<double, 2> const δs =
       SolveQuadraticEquation(/*origin=*/0.0, a0, a1, a2);
   if (δs.size() != 2) {
@@ -281,8 +290,8 @@ Perspective<FromFrame, ToFrame>::VisibleSegments(
   double infinity = 0.0;  // Might be NaN in cases where it's not used.
   auto const KH² = KH.Norm²();
   for (double const δ : δs) {
-    double const γ = (r² - δ * KBKH) / KAKH;
-    Displacement<FromFrame> const PH = γ * KA + δ * KB;
+    double const γ = (r² - δ * KVKH) / KUKH;
+    Displacement<FromFrame> const PH = γ * KU + δ * KV;
     auto const KAPH = InnerProduct(KA, PH);
     auto const KHPH = InnerProduct(KH, PH);
     auto const ABPH = InnerProduct(AB, PH);
-- 
2.43.0


From 40cd92d919cd7312173b2cc4dcb69676dabb883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 15/45] =?UTF-8?q?fix:=20the=20derivatives=20of=20degree=20?=
 =?UTF-8?q?0=20and=20the=20roots=20of=20degree=201=20in=20the=20=D0=A7?=
 =?UTF-8?q?=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20basis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...13\321\210\321\221\320\262_basis_body.hpp" | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..9f0fb93 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -183,6 +183,10 @@ template<additive_group Value_, affine Argument_, int degree_>
 Derivative<Value_, Argument_>
 PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::EvaluateDerivative(
     Argument const argument) const {
+  if constexpr (degree_ == 0) {
+    return Derivative<Value, Argument>{};
+  }
+
   // See comments above.
   double const scaled_argument =
       ((argument - upper_bound_) + (argument - lower_bound_)) * one_over_width_;
@@ -370,11 +374,17 @@ absl::btree_set<Argument_>
 PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::
 RealRootsOrDie(double const ε) const {
   if constexpr (convertible_to_quantity<Value>) {
-    auto const companion_matrix = FrobeniusCompanionMatrix();
-    auto const real_schur_decomposition =
-        RealSchurDecomposition(companion_matrix, ε);
-    absl::btree_set<double> const& scaled_real_roots =
-        real_schur_decomposition.real_eigenvalues;
+    absl::btree_set<double> scaled_real_roots;
+    if constexpr (degree_ == 1) {
+      // The companion matrix uses the recurrence 2 x Tₙ = Tₙ₊₁ + Tₙ₋₁, which
+      // doesn't hold for n = 0.
+      scaled_real_roots.insert(-coefficients_[0] / coefficients_[1]);
+    } else {
+      auto const companion_matrix = FrobeniusCompanionMatrix();
+      auto real_schur_decomposition =
+          RealSchurDecomposition(companion_matrix, ε);
+      scaled_real_roots = std::move(real_schur_decomposition.real_eigenvalues);
+    }
 
     // Rescale from [-1, 1] to [lower_bound_, upper_bound_].
     absl::btree_set<Argument> real_roots;
-- 
2.43.0


From b71e06086d8936367972160359f9ff458388d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:40 +0000
Subject: [PATCH 16/45] fix: the Householder reflection of a negative multiple
 of the first basis vector

---
 numerics/matrix_computations_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 26ffc7a..c0c60ad 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -59,7 +59,8 @@ HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   v₁ = 1;
   if (σ == 0) {
     if (x₁ < 0) {
-      result.β = -2;
+      // Note that [GV13] has -2 here, which doesn't yield a reflection.
+      result.β = 2;
     }
   } else {
     static constexpr double μ = 1;
-- 
2.43.0


From fa1d18e4e99a365e17d8b5c2d7f53abb0d2f5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 17/45] fix: make the QR iteration converge for matrices which
 need exceptional shifts or have null columns

---
 numerics/matrix_computations_body.hpp | 49 ++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index c0c60ad..f90ef6f 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -47,8 +47,14 @@ template<typename Vector>
 HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   // In order to avoid issues with quantities, we start by normalizing x.  This
   // implies that μ is 1.
-  auto const normalized_x =
-      UnboundedVector<typename Vector::Scalar>(x).Normalize();
+  UnboundedVector<typename Vector::Scalar> const unnormalized_x(x);
+  auto normalized_x = unnormalized_x.Normalize();
+  if (unnormalized_x.Norm() == typename Vector::Scalar{}) {
+    // No direction, the identity will do.
+    for (std::int64_t i = 0; i < normalized_x.size(); ++i) {
+      normalized_x[i] = i == 0 ? 1 : 0;
+    }
+  }
   HouseholderReflection result{.v = normalized_x,
                                .β = 0};
   double const& x₁ = normalized_x[0];
@@ -177,14 +183,21 @@ absl::btree_set<typename Matrix::Scalar> Compute2By2Eigenvalues(
                                                   solutions.end());
 }
 
-// [GV13] algorithm 7.5.1.
+// [GV13] algorithm 7.5.1.  If `exceptional` is true, uses the shift described in
+// Martin, Peters and Wilkinson (1970), The QR Algorithm for Real Hessenberg
+// Matrices.
 template<typename Scalar, typename Matrix>
-void FrancisQRStep(Matrix& H) {
+void FrancisQRStep(Matrix& H, bool const exceptional) {
   std::int64_t const n = H.rows();
   std::int64_t const m = n - 1;
-  auto const s = H(m - 1, m - 1) + H(n - 1, n - 1);
-  auto const t = H(m - 1, m - 1) * H(n - 1, n - 1) -
-                 H(m - 1, n - 1) * H(n - 1, m - 1);
+  auto s = H(m - 1, m - 1) + H(n - 1, n - 1);
+  auto t = H(m - 1, m - 1) * H(n - 1, n - 1) -
+           H(m - 1, n - 1) * H(n - 1, m - 1);
+  if (exceptional) {
+    auto const subdiagonal = Abs(H(n - 1, n - 2)) + Abs(H(n - 2, n - 3));
+    s = 1.5 * subdiagonal;
+    t = Pow<2>(subdiagonal);
+  }
   FixedVector<Scalar, 3> xyz(uninitialized);
   auto& x = xyz[0];
   auto& y = xyz[1];
@@ -887,9 +900,22 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
   auto hessenberg = HessenbergDecomposition(A);
   auto& H = hessenberg.H;
   std::int64_t const n = H.rows();
+  // Relative to this scale, elements of the order of `ε²` are negligible even if
+  // the diagonal elements vanish.
+  Scalar scale{};
+  for (std::int64_t i = 0; i < n; ++i) {
+    for (std::int64_t j = 0; j < n; ++j) {
+      scale = std::max(scale, Abs(H(i, j)));
+    }
+  }
+  // The number of steps since the active block was last reduced.
+  std::int64_t steps = 0;
+  std::int64_t previous_p = -1;
+  std::int64_t previous_q = -1;
   for (;;) {
     for (std::int64_t i = 1; i < n; ++i) {
-      if (Abs(H(i, i - 1)) <= ε * (Abs(H(i, i)) + Abs(H(i - 1, i - 1)))) {
+      if (Abs(H(i, i - 1)) <=
+          ε * std::max(Abs(H(i, i)) + Abs(H(i - 1, i - 1)), ε * scale)) {
         H(i, i - 1) = zero;
       }
     }
@@ -927,7 +953,12 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
                                  .last_row = n - q - 1,
                                  .first_column = p,
                                  .last_column = n - q - 1};
-    FrancisQRStep<Scalar>(H₂₂);
+    steps = p == previous_p && q == previous_q ? steps + 1 : 0;
+    previous_p = p;
+    previous_q = q;
+    // An exceptional shift every now and then ensures that we don't cycle.
+    FrancisQRStep<Scalar>(H₂₂,
+                          /*exceptional=*/steps % 10 == 9);
   }
 
   // Find the real eigenvalues.  Note that they may be part of a 2×2 block which
-- 
2.43.0


From d9cb8335a5c97f80659f3c91529d68068ea2a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:12 +0000
Subject: [PATCH 18/45] fix: drop the cached values of a piecewise Poisson
 series when it changes

---
 numerics/piecewise_poisson_series.hpp      | 6 ++----
 numerics/piecewise_poisson_series_body.hpp | 4 ++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/numerics/piecewise_poisson_series.hpp b/numerics/piecewise_poisson_series.hpp
index 2850702..316b09a 100644
--- a/numerics/piecewise_poisson_series.hpp
+++ b/numerics/piecewise_poisson_series.hpp
@@ -135,10 +135,8 @@ class PiecewisePoissonSeries {
 
   // A cache of the evaluation of this function at the Gauss-Legendre points.
   // Caching is possible because the Gauss-Legendre integration picks its points
-  // deterministically.  Note that caching keeps working if new series get
-  // appended to this function: the cache will just be "too short" and new
-  // entries can be appended as needed.  We use a shared_ptr<> to make sure that
-  // copies remain cheap.
+  // deterministically.  The cache is dropped when this function changes.  We use
+  // a shared_ptr<> to make sure that copies remain cheap.
   mutable std::shared_ptr<std::vector<Value>> gauss_legendre_cache_;
 
   template<typename V, int ar, int pr>
diff --git a/numerics/piecewise_poisson_series_body.hpp b/numerics/piecewise_poisson_series_body.hpp
index eea500f..41a65c9 100644
--- a/numerics/piecewise_poisson_series_body.hpp
+++ b/numerics/piecewise_poisson_series_body.hpp
@@ -51,6 +51,7 @@ operator+=(PoissonSeries<Value,
   } else {
     addend_ = Series(right);
   }
+  gauss_legendre_cache_ = nullptr;
   return *this;
 }
 
@@ -68,6 +69,7 @@ operator-=(PoissonSeries<Value,
   } else {
     addend_ = Series(-right);
   }
+  gauss_legendre_cache_ = nullptr;
   return *this;
 }
 
@@ -81,6 +83,8 @@ Append(Interval<Instant> const& interval,
   CHECK_EQ(bounds_.back(), interval.min);
   bounds_.push_back(interval.max);
   series_.push_back(series);
+  // The cache may be shared with copies of this object.
+  gauss_legendre_cache_ = nullptr;
 }
 
 template<typename Value,
-- 
2.43.0


From c4e917f08c76e52541b550510db6e94f28a64bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 19/45] fix: Solve chose its pivots in the original matrix

---
 numerics/matrix_computations_body.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index f90ef6f..8b9d0d7 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -1101,6 +1101,14 @@ Solve(Matrix A, Vector b) {
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (std::int64_t k = 0; k < A.columns(); ++k) {
+    // Reduce the column from which the pivot is chosen: the elements that
+    // matter are those of the Schur complement, not the original ones.
+    for (std::int64_t i = k; i < A.rows(); ++i) {
+      for (std::int64_t j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     std::int64_t r = -1;
     Scalar max{};
@@ -1127,7 +1135,8 @@ Solve(Matrix A, Vector b) {
     LOG_IF(WARNING, A(k, k) == Scalar{})
         << A << " does not have a unique LU decomposition";
 
-    for (std::int64_t j = k; j < A.columns(); ++j) {
+    U(k, k) = A(k, k);
+    for (std::int64_t j = k + 1; j < A.columns(); ++j) {
       auto U_kj = A(k, j);
       for (std::int64_t i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -1135,11 +1144,7 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      auto L_ik = A(i, k);
-      for (std::int64_t j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From e29f36a7f9d582cfa9605179a1ef72a4c33e9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 20/45] fix: RayleighQuotientIteration failed when the shift
 was exactly an eigenvalue

---
 numerics/matrix_computations_body.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 8b9d0d7..d40ace2 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -17,6 +17,7 @@
 #include "numerics/transposed_view.hpp"
 #include "numerics/unbounded_arrays.hpp"
 #include "quantities/named_quantities.hpp"
+#include "quantities/quantities.hpp"
 #include "quantities/si.hpp"
 
 namespace principia {
@@ -34,6 +35,7 @@ using namespace principia::numerics::_root_finders;
 using namespace principia::numerics::_transposed_view;
 using namespace principia::numerics::_unbounded_arrays;
 using namespace principia::quantities::_named_quantities;
+using namespace principia::quantities::_quantities;
 using namespace principia::quantities::_si;
 
 // As mentioned in [GV13] section 5.1.4, "It is critical to exploit structure
@@ -1066,6 +1068,8 @@ RayleighQuotientIteration(Matrix const& A, Vector const& x) {
   auto& μₖ = result.eigenvalue;
 
   // [GV13], section 8.2.3.
+  auto const A_ulps = 4 * std::numeric_limits<double>::epsilon() *
+                      A.FrobeniusNorm();
   xₖ = x / x.Norm();
   for (std::int64_t iteration = 0; iteration < 10; ++iteration) {
     μₖ = RayleighQuotient(A, xₖ);
@@ -1074,13 +1078,20 @@ RayleighQuotientIteration(Matrix const& A, Vector const& x) {
       A_minus_μₖ_I(i, i) -= μₖ;
     }
     auto const residual = (A_minus_μₖ_I * xₖ).Norm();
-    // TODO(phl): This test is cheezy.  It should be based on the norm of the
-    // matrix.
-    if (residual < 2 * std::numeric_limits<double>::epsilon() *
-                       si::Unit<decltype(residual)>) {
+    if (residual <= A_ulps) {
       return result;
     }
-    auto const zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    // If μₖ is, to rounding, an eigenvalue, the matrix above may be singular.  A
+    // shift which is off by a few ULPs converges just as well.
+    auto zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    for (auto δμ = A_ulps;
+         !IsFinite(zₖ₊₁.Norm()) && IsFinite(δμ);
+         δμ *= 2) {
+      for (std::int64_t i = 0; i < A.rows(); ++i) {
+        A_minus_μₖ_I(i, i) -= δμ;
+      }
+      zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    }
     xₖ = zₖ₊₁ / zₖ₊₁.Norm();
   }
   LOG(WARNING) << "Unconverged Rayleigh quotient iteration: " << A;
@@ -1144,7 +1155,8 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      L(i, k) = A(i, k) / U(k, k);
+      // If the pivot is zero, so are all the elements below it.
+      L(i, k) = A(k, k) == Scalar{} ? 0 : A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 3b913a5623391936cfb71915d95e27e3f39c7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:43 +0000
Subject: [PATCH 21/45] =?UTF-8?q?fix:=20Nguy=E1=BB=85nStehl=C3=A9=20took?=
 =?UTF-8?q?=20exponentially=20long=20when=20a=20coefficient=20exceeded=202?=
 =?UTF-8?q?^54?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 numerics/lattices_body.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/numerics/lattices_body.hpp b/numerics/lattices_body.hpp
index 1e9dc20..5aded61 100644
--- a/numerics/lattices_body.hpp
+++ b/numerics/lattices_body.hpp
@@ -3,7 +3,7 @@
 #include "numerics/lattices.hpp"
 
 #include <algorithm>
-#include <limits>
+#include <cmath>
 #include <utility>
 #include <vector>
 
@@ -34,11 +34,6 @@ using namespace principia::numerics::_transposed_view;
 using namespace principia::numerics::_unbounded_arrays;
 using namespace principia::quantities::_concepts;
 
-// The largest `int64_t` that can be converted to and from `double` without loss
-// of accuracy.
-constexpr std::int64_t largest_convertible_integer =
-    2LL << std::numeric_limits<double>::digits;
-
 // In the terminology of [NS09], our vectors are in columns, so `d` is `columns`
 // and `n` is `rows`.
 template<typename Matrix>
@@ -80,6 +75,7 @@ struct NguyễnStehléGenerator<UnboundedMatrix<Scalar>> {
   using Μ = UnboundedStrictlyUpperTriangularMatrix<double>;
   using S = UnboundedVector<Square<Scalar>>;
   using Vector = UnboundedVector<Scalar>;
+  using X = double;
   static R UninitializedR(UnboundedMatrix<Scalar> const& m);
   static Μ UninitializedΜ(UnboundedMatrix<Scalar> const& m);
   static S UninitializedS(UnboundedMatrix<Scalar> const& m);
@@ -92,6 +88,7 @@ struct NguyễnStehléGenerator<UnboundedMatrix<cpp_int>> {
   using Μ = UnboundedStrictlyUpperTriangularMatrix<double>;
   using S = UnboundedVector<double>;
   using Vector = UnboundedVector<cpp_int>;
+  using X = cpp_int;
   static R UninitializedR(UnboundedMatrix<cpp_int> const& m);
   static Μ UninitializedΜ(UnboundedMatrix<cpp_int> const& m);
   static S UninitializedS(UnboundedMatrix<cpp_int> const& m);
@@ -105,6 +102,7 @@ struct NguyễnStehléGenerator<FixedMatrix<Scalar, rows, columns>> {
   using Μ = FixedStrictlyUpperTriangularMatrix<double, columns>;
   using S = FixedVector<Square<Scalar>, columns>;
   using Vector = FixedVector<Scalar, rows>;
+  using X = double;
   static R UninitializedR(FixedMatrix<Scalar, rows, columns> const& m);
   static Μ UninitializedΜ(FixedMatrix<Scalar, rows, columns> const& m);
   static S UninitializedS(FixedMatrix<Scalar, rows, columns> const& m);
@@ -117,6 +115,7 @@ struct NguyễnStehléGenerator<FixedMatrix<cpp_int, rows, columns>> {
   using Μ = FixedStrictlyUpperTriangularMatrix<double, columns>;
   using S = FixedVector<double, columns>;
   using Vector = FixedVector<cpp_int, rows>;
+  using X = cpp_int;
   static R UninitializedR(FixedMatrix<cpp_int, rows, columns> const& m);
   static Μ UninitializedΜ(FixedMatrix<cpp_int, rows, columns> const& m);
   static S UninitializedS(FixedMatrix<cpp_int, rows, columns> const& m);
@@ -384,24 +383,15 @@ void SizeReduce(std::int64_t const κ,
       return;
     }
 
-    std::vector<std::int64_t> X(κ);
+    std::vector<typename NSG::X> X(κ);
     bool making_progress = false;
     for (std::int64_t i = κ - 1; i >= 0; --i) {
-      // Step 4.  A large `double` value may overflow `int64_t`, and cause
-      // `llround` to return junk.  To avoid this, we make the conversion
-      // saturating and trust that the reduction will iterate.
-      double const μ_iκ = μ(i, κ);
-      if (μ_iκ > largest_convertible_integer) {
-        X[i] = largest_convertible_integer;
-      } else if (μ_iκ < -largest_convertible_integer) {
-        X[i] = -largest_convertible_integer;
-      } else {
-        X[i] = std::llround(μ_iκ);
-      }
+      // Step 4.  Note that this value may be too large for `int64_t`.
+      X[i] = static_cast<typename NSG::X>(std::round(μ(i, κ)));
       making_progress |= X[i] != 0;
       // Step 5.
       for (std::int64_t j = 0; j <= i - 1; ++j) {
-        μ(j, κ) -= X[i] * μ(j, i);
+        μ(j, κ) -= static_cast<double>(X[i]) * μ(j, i);
       }
     }
     CHECK(making_progress) << b;
-- 
2.43.0


From 9017f1cf169135de8eafc51427949fd59571a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:45 +0000
Subject: [PATCH 22/45] fix: a copy of a multistep instance that is not started
 modified the original

---
 integrators/explicit_linear_multistep_integrator.hpp   |  1 +
 .../explicit_linear_multistep_integrator_body.hpp      |  7 +++++++
 integrators/starter.hpp                                |  5 +++++
 integrators/starter_body.hpp                           | 10 ++++++++++
 integrators/symmetric_linear_multistep_integrator.hpp  |  1 +
 .../symmetric_linear_multistep_integrator_body.hpp     |  7 +++++++
 6 files changed, 31 insertions(+)

diff --git a/integrators/explicit_linear_multistep_integrator.hpp b/integrators/explicit_linear_multistep_integrator.hpp
index 68d684a..f84746d 100644
--- a/integrators/explicit_linear_multistep_integrator.hpp
+++ b/integrators/explicit_linear_multistep_integrator.hpp
@@ -80,6 +80,7 @@ class ExplicitLinearMultistepIntegrator
              AppendState const& append_state,
              IndependentVariableDifference const& step,
              ExplicitLinearMultistepIntegrator const& integrator);
+    Instance(Instance const& other);
 
     Starter starter_;
     ExplicitLinearMultistepIntegrator const& integrator_;
diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 019c536..1814f50 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -176,6 +176,13 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 ExplicitLinearMultistepIntegrator<Method, ODE_>::
 ExplicitLinearMultistepIntegrator(
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 9b315e2..8268d06 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -28,6 +28,11 @@ class Starter {
           std::int64_t startup_step_divisor,
           not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
 
+  // A copy of `other`, for an `instance` which is a copy of the instance of
+  // `other`.
+  Starter(Starter const& other,
+          not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
+
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 32cedd6..0fa7448 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -20,6 +20,16 @@ Starter<ODE, Step, steps>::Starter(
       startup_step_divisor_(startup_step_divisor),
       instance_(instance) {}
 
+template<typename ODE, typename Step, int steps>
+Starter<ODE, Step, steps>::Starter(
+    Starter const& other,
+    not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> const instance)
+    : startup_integrator_(other.startup_integrator_),
+      startup_step_divisor_(other.startup_step_divisor_),
+      instance_(instance),
+      startup_step_index_(other.startup_step_index_),
+      previous_steps_(other.previous_steps_) {}
+
 template<typename ODE, typename Step, int steps>
 void Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
diff --git a/integrators/symmetric_linear_multistep_integrator.hpp b/integrators/symmetric_linear_multistep_integrator.hpp
index dac4ebf..b8c1487 100644
--- a/integrators/symmetric_linear_multistep_integrator.hpp
+++ b/integrators/symmetric_linear_multistep_integrator.hpp
@@ -101,6 +101,7 @@ class SymmetricLinearMultistepIntegrator
              AppendState const& append_state,
              Time const& step,
              SymmetricLinearMultistepIntegrator const& integrator);
+    Instance(Instance const& other);
 
     // Performs the velocity computation using the Cohen-Hubbard-Oesterwinter
     // method based on the accelerations computed by the main integrator.
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index d36f069..a1ef995 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -278,6 +278,13 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 void SymmetricLinearMultistepIntegrator<Method, ODE_>::
 Instance::ComputeVelocityUsingCohenHubbardOesterwinter() {
-- 
2.43.0


From 662ec3fe6bf37aca0bbd82638f6bbf6de61a9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:45 +0000
Subject: [PATCH 23/45] fix: FixedStepSizeIntegrator::ReadFromMessage did not
 read an SPRK for a second-order equation

---
 integrators/integrators_body.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/integrators/integrators_body.hpp b/integrators/integrators_body.hpp
index 5a8ad36..355dea6 100644
--- a/integrators/integrators_body.hpp
+++ b/integrators/integrators_body.hpp
@@ -596,6 +596,8 @@ FixedStepSizeIntegrator<ODE_>::Instance::Instance(
 
 #define PRINCIPIA_READ_FSS_INTEGRATOR_SPRK(method)                             \
   if constexpr (is_instance_of_v<DecomposableFirstOrderDifferentialEquation,   \
+                                 ODE> ||                                       \
+                is_instance_of_v<SpecialSecondOrderDifferentialEquation,       \
                                  ODE>) {                                       \
     serialization::FixedStepSizeIntegratorInstance instance;                   \
     *instance.mutable_integrator() = message;                                  \
-- 
2.43.0


From 021dd1eba9696ad7132af03dddcb13a9deef1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:31 +0000
Subject: [PATCH 24/45] fix: reach the final time exactly when the last step is
 exact

---
 ...eneralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 ++++
 integrators/embedded_explicit_runge_kutta_integrator_body.hpp | 4 ++++
 ...d_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 ++++
 3 files changed, 12 insertions(+)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..40f03ec 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -243,6 +243,10 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     // Increment the solution with the high-order approximation.
     t.Increment(h);
+    if (parameters.last_step_is_exact && at_end) {
+      // The rounding of `h` may cause the increment to miss `t_final`.
+      t = DoublePrecision<Instant>(t_final);
+    }
     for (int k = 0; k < dimension; ++k) {
       q̂[k].Increment(Δq̂[k]);
       v̂[k].Increment(Δv̂[k]);
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..bbf13d5 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -239,6 +239,10 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     // Increment the solution with the high-order approximation.
     s.Increment(h);
+    if (parameters.last_step_is_exact && at_end) {
+      // The rounding of `h` may cause the increment to miss `s_final`.
+      s = DoublePrecision<typename ODE::IndependentVariable>(s_final);
+    }
     for_all_of(Δŷ, ŷ).loop([](auto const& Δŷ, auto& ŷ) {
       ŷ.Increment(Δŷ);
     });
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..9e6ebfe 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -235,6 +235,10 @@ Instance::Solve(Instant const& t_final) {
 
     // Increment the solution with the high-order approximation.
     t.Increment(h);
+    if (parameters.last_step_is_exact && at_end) {
+      // The rounding of `h` may cause the increment to miss `t_final`.
+      t = DoublePrecision<Instant>(t_final);
+    }
     for (int k = 0; k < dimension; ++k) {
       q̂[k].Increment(Δq̂[k]);
       v̂[k].Increment(Δv̂[k]);
-- 
2.43.0


From 317595a54d864f52d529e390acab38a9b1151956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 25/45] fix: attach a trajectory that starts with a 1-point
 segment followed by another one

---
 physics/discrete_trajectory_body.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index c10ada1..5bb0d5e 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -218,9 +218,13 @@ DiscreteTrajectory<Frame>::AttachSegments(DiscreteTrajectory trajectory) {
         << "Mismatching times when attaching segments";
     trajectory.segments_->begin()->Prepend(back().time,
                                            back().degrees_of_freedom);
+    // If the first segment was a 1-point segment, the map may have an entry for
+    // a later segment, which must be preserved.
+    auto const sit = trajectory.segments_->begin();
     auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
-    auto const sit = leit->second;
-    trajectory.segment_by_left_endpoint_.erase(leit);
+    if (leit->second == sit) {
+      trajectory.segment_by_left_endpoint_.erase(leit);
+    }
     trajectory.segment_by_left_endpoint_.emplace(back().time, sit);
   }
 
-- 
2.43.0


From c14df609eba65943ac621b682e72773adabc1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 26/45] fix: keep the time-to-segment entry of a later segment
 when forgetting all but the last point of a segment

---
 physics/discrete_trajectory_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index 5bb0d5e..dd0d7f2 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -343,9 +343,11 @@ void DiscreteTrajectory<Frame>::ForgetBefore(Instant const& t) {
   // just have truncated.
   segment_by_left_endpoint_.erase(segment_by_left_endpoint_.begin(),
                                   std::next(leit));
-  // It `*sit` is not empty, recreate an entry with its new left endpoint.
+  // It `*sit` is not empty, recreate an entry with its new left endpoint, unless
+  // `*sit` is now a 1-point segment and there is an entry for a later segment
+  // that starts at the same time.
   if (!sit->empty()) {
-    segment_by_left_endpoint_.insert_or_assign(
+    segment_by_left_endpoint_.try_emplace(
         segment_by_left_endpoint_.begin(),
         sit->front().time,
         sit);
-- 
2.43.0


From 516b79e403828dcaf930a1c9e042fe414727b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 27/45] fix: detach or attach segments that start with empty
 segments

---
 physics/discrete_trajectory_body.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index dd0d7f2..af4bcb0 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -914,6 +914,15 @@ void DiscreteTrajectory<Frame>::AdjustAfterSplicing(
     sit->SetSelf(SegmentIterator(to.segments_.get(), sit));
   }
 
+  // The leading empty segments don't have entries in the time-to-segment map.
+  while (to_segments_begin != to.segments_->end() &&
+         to_segments_begin->empty()) {
+    ++to_segments_begin;
+  }
+  if (to_segments_begin == to.segments_->end()) {
+    return;
+  }
+
   // Copy the time-to-segment entries on or after the time of `to_segment_begin`
   // from `from` to `to`.  We are sure to copy all the entries we need because
   // it includes the last segment that starts at that time.
-- 
2.43.0


From 80813249db84dfbdad1130b8bbcffb1df3684f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 28/45] fix: do not read the lower point of an interpolation
 after its invalidation

---
 physics/discrete_trajectory_segment_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b15a8f2..cddcdc4 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -584,10 +584,11 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
     typename Timeline::iterator const upper) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
-  auto const& [lower_time, lower_degrees_of_freedom] = *lower;
 
-  // This needs to be copied because the element designated by `upper` is going
-  // to be extracted from the set, which invalidates `upper`.
+  // These need to be copied because the element designated by `upper` is going
+  // to be extracted from the set, which invalidates `lower` and `upper`.
+  auto const lower_time = lower->time;
+  auto const lower_degrees_of_freedom = lower->degrees_of_freedom;
   auto const upper_time = upper->time;
   auto const upper_degrees_of_freedom = upper->degrees_of_freedom;
 
-- 
2.43.0


From d8b06bf9376e8c320f825489995bd816f7466167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 29/45] fix: keep the downsampling error when merging or
 reading a segment

---
 physics/discrete_trajectory_segment.hpp      | 14 ++++--
 physics/discrete_trajectory_segment_body.hpp | 50 ++++++++++++++------
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/physics/discrete_trajectory_segment.hpp b/physics/discrete_trajectory_segment.hpp
index 68cab60..1a6ded7 100644
--- a/physics/discrete_trajectory_segment.hpp
+++ b/physics/discrete_trajectory_segment.hpp
@@ -182,12 +182,18 @@ class DiscreteTrajectorySegment : public Trajectory<Frame> {
 
   // Stores the Hermite interpolation for the open trajectory interval bounded
   // above by `upper`.  `upper` must not be the first point of the timeline.
-  // Because the interpolation covers consecutive points without any
-  // intermediate points dropped, it is exact and its error is set to zero.
   // The first function requires that there is no existing interpolation for the
-  // `upper` point, while the second one updates an existing interpolation.
+  // `upper` point; because the interpolation covers consecutive points without
+  // any intermediate points dropped, it is exact and its error is set to zero.
+  // The second one updates an existing interpolation, if there is one, and sets
+  // its error.
   void CreateInterpolation(typename Timeline::iterator upper);
-  void UpdateInterpolation(typename Timeline::iterator upper);
+  void UpdateInterpolation(typename Timeline::iterator upper,
+                           Length const& error);
+
+  // Restores the downsampling error resulting from the last interpolation, if
+  // there is one.
+  void RestoreDownsamplingError();
 
   // Constructs the Hermite interpolation for the trajectory interval
   // `]lower, t[` with the specified `degrees_of_freedom` for time `t`.
diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index cddcdc4..34c3bbf 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -308,6 +308,7 @@ DiscreteTrajectorySegment<Frame>::ReadFromMessage(
   }
 
   // Finally, restore the downsampling information.
+  segment.RestoreDownsamplingError();
   if (message.has_downsampling_parameters()) {
     segment.downsampling_parameters_ = DownsamplingParameters::ReadFromMessage(
         message.downsampling_parameters());
@@ -382,16 +383,7 @@ template<typename Frame>
 void DiscreteTrajectorySegment<Frame>::ForgetAfter(
     typename Timeline::const_iterator const begin) {
   timeline_.erase(begin, timeline_.cend());
-  if (!timeline_.empty()) {
-    // Restore the downsampling error resulting from the last interpolation, if
-    // there is one.
-    auto const& last_interpolation = timeline_.crbegin()->interpolation;
-    if (last_interpolation != nullptr) {
-      downsampling_error_ = last_interpolation->error;
-      return;
-    }
-  }
-  downsampling_error_ = Length{};
+  RestoreDownsamplingError();
 }
 
 template<typename Frame>
@@ -492,6 +484,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     return;
   } else if (timeline_.empty()) {
     downsampling_parameters_ = segment.downsampling_parameters_;
+    downsampling_error_ = segment.downsampling_error_;
     timeline_ = std::move(segment.timeline_);
   } else if (auto const [this_crbegin, segment_begin] =
                  std::pair{std::prev(timeline_.cend()),
@@ -510,6 +503,12 @@ void DiscreteTrajectorySegment<Frame>::Merge(
         << segment_cbegin->degrees_of_freedom << " don't match";
 #endif
     Instant const segment_begin_time = segment_begin->time;
+    // If the segments have a common time, the points that were downsampled
+    // before that time still contribute to the error.
+    Length const error = this_crbegin->time == segment_begin_time &&
+                                 this_crbegin->interpolation != nullptr
+                             ? this_crbegin->interpolation->error
+                             : Length{};
     downsampling_parameters_ = segment.downsampling_parameters_;
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `segment_begin_time` (there may be
@@ -519,8 +518,9 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     auto const it = timeline_.find(segment_begin_time);
     CHECK(it != timeline_.cend());
     if (it != timeline_.cbegin()) {
-      UpdateInterpolation(it);
+      UpdateInterpolation(it, error);
     }
+    RestoreDownsamplingError();
   } else if (auto const [segment_crbegin, this_begin] =
                  std::pair{std::prev(segment.timeline_.cend()),
                            timeline_.begin()};
@@ -538,6 +538,12 @@ void DiscreteTrajectorySegment<Frame>::Merge(
         << this_cbegin->degrees_of_freedom << " don't match";
 #endif
     Instant const this_begin_time = this_begin->time;
+    // If the segments have a common time, the points that were downsampled
+    // before that time still contribute to the error.
+    Length const error = segment_crbegin->time == this_begin_time &&
+                                 segment_crbegin->interpolation != nullptr
+                             ? segment_crbegin->interpolation->error
+                             : Length{};
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `this_begin_time` (there may be one
     // if the segments have a common time, though). (Re)compute it, but remember
@@ -546,8 +552,9 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     auto const it = timeline_.find(this_begin_time);
     CHECK(it != timeline_.cend());
     if (it != timeline_.cbegin()) {
-      UpdateInterpolation(it);
+      UpdateInterpolation(it, error);
     }
+    RestoreDownsamplingError();
   } else {
     LOG(FATAL) << "Overlapping merge: [" << segment.timeline_.cbegin()->time
                << ", " << std::prev(segment.timeline_.cend())->time
@@ -576,12 +583,13 @@ void DiscreteTrajectorySegment<Frame>::CreateInterpolation(
   CHECK(upper != timeline_.cbegin());
   CHECK_EQ(nullptr, upper->interpolation)
       << "Already has an interpolation at " << upper->time;
-  UpdateInterpolation(upper);
+  UpdateInterpolation(upper, /*error=*/Length{});
 }
 
 template<typename Frame>
 void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
-    typename Timeline::iterator const upper) {
+    typename Timeline::iterator const upper,
+    Length const& error) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
 
@@ -604,10 +612,22 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
                                      upper_degrees_of_freedom.position()},
                            std::pair{lower_degrees_of_freedom.velocity(),
                                      upper_degrees_of_freedom.velocity()}),
-                       /*error=*/Length{});
+                       error);
   timeline_.insert(next, std::move(extracted));
 }
 
+template<typename Frame>
+void DiscreteTrajectorySegment<Frame>::RestoreDownsamplingError() {
+  if (!timeline_.empty()) {
+    auto const& last_interpolation = timeline_.crbegin()->interpolation;
+    if (last_interpolation != nullptr) {
+      downsampling_error_ = last_interpolation->error;
+      return;
+    }
+  }
+  downsampling_error_ = Length{};
+}
+
 template<typename Frame>
 Hermite3<Position<Frame>, Instant>
 DiscreteTrajectorySegment<Frame>::MakeHermite3(
-- 
2.43.0


From ed1fda79a03ddd3a7e4dfb36daaa9026dc1608e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:15 +0000
Subject: [PATCH 30/45] fix: make the checkpoints of an ephemeris cover its
 initial time

---
 physics/ephemeris_body.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index 7523491..c7bd8c7 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -168,6 +168,11 @@ Ephemeris<Frame>::Ephemeris(
       /*append_state=*/std::bind(
           &Ephemeris::AppendMassiveBodiesState, this, _1),
       fixed_step_parameters_.step());
+
+  // The checkpoints must cover the initial time, otherwise it would not be
+  // possible to deserialize this object at a time before the end of the first
+  // step.
+  WriteToCheckpointIfNeeded(initial_time);
 }
 
 template<typename Frame>
-- 
2.43.0


From 60c830cca2650ae670eadcc368b84da06d2b3d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:58 +0000
Subject: [PATCH 31/45] fix: report the status of the startup of the multistep
 integrators

---
 .../explicit_linear_multistep_integrator_body.hpp    |  6 +++---
 integrators/starter.hpp                              |  6 ++++--
 integrators/starter_body.hpp                         | 12 ++++++------
 .../symmetric_linear_multistep_integrator_body.hpp   |  6 +++---
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 1814f50..e8b3bef 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -35,13 +35,14 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   auto const& step = this->step_;
   auto const& equation = this->equation_;
 
+  absl::Status status;
   if (!starter_.started()) {
-    starter_.Solve(s_final);
+    status = starter_.Solve(s_final);
 
     // If `s_final` is not large enough, we may not have generated enough
     // points.  Bail out, we'll continue the next time `Solve` is called.
     if (!starter_.started()) {
-      return absl::OkStatus();
+      return status;
     }
   }
   auto const& previous_steps = starter_.previous_steps();
@@ -61,7 +62,6 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   // Current stage of the integrator.
   DependentVariables y_stage;
 
-  absl::Status status;
 
   while (h <= (s_final - s.value) - s.error) {
     DoubleDependentVariables Σⱼ_minus_αⱼ_yⱼ{};
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 8268d06..017d4ee 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -2,6 +2,7 @@
 
 #include <list>
 
+#include "absl/status/status.h"
 #include "base/not_null.hpp"
 #include "integrators/integrators.hpp"
 
@@ -36,8 +37,9 @@ class Starter {
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
-  // updated more frequently than once every `instance.step_`.
-  void Solve(typename ODE::IndependentVariable const& s_final);
+  // updated more frequently than once every `instance.step_`.  Returns the
+  // status of the startup integration.
+  absl::Status Solve(typename ODE::IndependentVariable const& s_final);
 
   // Appends a new step to `previous_steps_` and drops the oldest one if needed.
   // This object must be `started()`.
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 0fa7448..f8e351b 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -31,7 +31,7 @@ Starter<ODE, Step, steps>::Starter(
       previous_steps_(other.previous_steps_) {}
 
 template<typename ODE, typename Step, int steps>
-void Starter<ODE, Step, steps>::Solve(
+absl::Status Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
   auto const& equation = instance_->equation();
   auto& current_state = instance_->state();
@@ -74,13 +74,13 @@ void Starter<ODE, Step, steps>::Solve(
   auto const startup_instance = startup_integrator_.NewInstance(
       {equation, current_state}, startup_append_state, startup_step);
 
-  startup_instance
-      ->Solve(std::min(independent_variable() +
-                           (steps - previous_steps_.size()) * step + step / 2.0,
-                       s_final))
-      .IgnoreError();
+  absl::Status const status = startup_instance->Solve(
+      std::min(independent_variable() +
+                   (steps - previous_steps_.size()) * step + step / 2.0,
+               s_final));
 
   CHECK_LE(previous_steps_.size(), steps);
+  return status;
 }
 
 template<typename ODE, typename Step, int steps>
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index a1ef995..94619a5 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -39,13 +39,14 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   auto const& step = this->step_;
   auto const& equation = this->equation_;
 
+  absl::Status status;
   if (!starter_.started()) {
-    starter_.Solve(t_final);
+    status = starter_.Solve(t_final);
 
     // If `t_final` is not large enough, we may not have generated enough
     // points.  Bail out, we'll continue the next time `Solve` is called.
     if (!starter_.started()) {
-      return absl::OkStatus();
+      return status;
     }
   }
   auto const& previous_steps = starter_.previous_steps();
@@ -61,7 +62,6 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   // Order.
   int const k = order;
 
-  absl::Status status;
   std::vector<Position> positions(dimension);
 
   DoubleDisplacements Σⱼ_minus_αⱼ_qⱼ(dimension);
-- 
2.43.0


From 01d658074bbd8178ed4916b03ef425fd6b5d93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 32/45] fix: compute the mean anomaly of incoming hyperbolic
 orbits

---
 physics/kepler_orbit_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 7e9e3c8..40171eb 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -606,8 +606,9 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
         ArcTan(Sqrt(1 - Pow<2>(e)) * sin_ν, e + cos_ν);
     mean_anomaly =
         positive_angle(eccentric_anomaly - e * Sin(eccentric_anomaly) * Radian);
+    // The hyperbolic eccentric anomaly has the same sign as the true anomaly.
     Angle const hyperbolic_eccentric_anomaly =
-        ArcCosh((e + cos_ν) / (1 + e * cos_ν));
+        Sign(sin_ν) * ArcCosh((e + cos_ν) / (1 + e * cos_ν));
     hyperbolic_mean_anomaly = e * Sinh(hyperbolic_eccentric_anomaly) * Radian -
                               hyperbolic_eccentric_anomaly;
   } else if (mean_anomaly) {
-- 
2.43.0


From 42924c031477ea4ce580ac209a22ac9330975c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 33/45] fix: bracket the roots of Kepler's equation
 irrespective of rounding

---
 physics/kepler_orbit_body.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 40171eb..629a05f 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -617,10 +617,13 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
       return *mean_anomaly -
              (eccentric_anomaly - e * Sin(eccentric_anomaly) * Radian);
     };
-    Angle const eccentric_anomaly = e == 0 ? *mean_anomaly
-                                           : Brent(kepler_equation,
-                                                   *mean_anomaly - e * Radian,
-                                                   *mean_anomaly + e * Radian);
+    // The bracket is twice as wide as needed, so that the signs of
+    // `kepler_equation` at its bounds are not affected by rounding.
+    Angle const eccentric_anomaly =
+        e == 0 ? *mean_anomaly
+               : Brent(kepler_equation,
+                       *mean_anomaly - 2 * e * Radian,
+                       *mean_anomaly + 2 * e * Radian);
     auto const [sin_eccentric_anomaly_over_2,
                 cos_eccentric_anomaly_over_2] = SinCos(eccentric_anomaly / 2);
     true_anomaly = 2 * ArcTan(Sqrt(1 + e) * sin_eccentric_anomaly_over_2,
@@ -637,7 +640,7 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
     Angle const hyperbolic_eccentric_anomaly =
         Brent(hyperbolic_kepler_equation,
               0 * Radian,
-              *hyperbolic_mean_anomaly / (e - 1));
+              2 * *hyperbolic_mean_anomaly / (e - 1));
     true_anomaly =
         2 * ArcTan(Sqrt(e + 1) * Sinh(hyperbolic_eccentric_anomaly / 2),
                    Sqrt(e - 1) * Cosh(hyperbolic_eccentric_anomaly / 2));
-- 
2.43.0


From a5cd8d2c2d3d7e0973e83cf5c6f4e54ac9caee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:41 +0000
Subject: [PATCH 34/45] fix: Kepler orbits of planar and nearly circular state
 vectors

---
 physics/kepler_orbit_body.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 629a05f..0e0bd23 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -163,7 +163,12 @@ KeplerOrbit<Frame>::KeplerOrbit(
   Vector<double, Frame> const eccentricity_vector =
       v * h / (μ * Radian) - Normalize(r);
   auto const& periapsis = eccentricity_vector;
-  Vector<SpecificAngularMomentum, Frame> const ascending_node = z * h;
+  // If the orbit lies in the xy plane, the ascending node is conventionally
+  // along the x axis.
+  Vector<SpecificAngularMomentum, Frame> const z_cross_h = z * h;
+  Vector<SpecificAngularMomentum, Frame> const ascending_node =
+      z_cross_h == Vector<SpecificAngularMomentum, Frame>{} ? x * h.Norm()
+                                                            : z_cross_h;
 
   // Inclination (above the xy plane).
   Angle const i = AngleBetween(x_wedge_y, h);
@@ -175,11 +180,16 @@ KeplerOrbit<Frame>::KeplerOrbit(
   // since `ascending_node` lies in the xy plane.
   Angle const Ω = ReduceAngle<0.0, 2 * π>(
       ArcTan(ascending_node.coordinates().y, ascending_node.coordinates().x));
-  Angle const true_anomaly =
-      ReduceAngle<0.0, 2 * π>(OrientedAngleBetween(periapsis, r, h));
+  double const e = eccentricity_vector.Norm();
+  // If the orbit is nearly circular, the direction of the periapsis is dominated
+  // by rounding errors, or altogether undefined.  We must then ensure that ω and
+  // the true anomaly add up to the argument of latitude, which is well-defined.
+  constexpr double nearly_circular = 0x1p-24;
+  Angle const true_anomaly = ReduceAngle<0.0, 2 * π>(
+      e < nearly_circular ? OrientedAngleBetween(ascending_node, r, h) - ω
+                          : OrientedAngleBetween(periapsis, r, h));
 
   SpecificEnergy const ε = v.Norm²() / 2 - μ / r.Norm();
-  double const e = eccentricity_vector.Norm();
 
   // We have h, e, and ε.  There are three ways of computing each of b, r_pe,
   // and r_ap from that (from any two of the elements we have), but only one is
-- 
2.43.0


From 97697610a228431af5991aebcd45c6f3b546f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 35/45] fix: ordinal dates with a negative year

---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..56354a6 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From fb3f1ddedc50d2b9d1db46de8d2172e4f1861a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 36/45] fix: Julian dates of negative years in the Gregorian
 calendar

---
 astronomy/date_time_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 56354a6..ffaa704 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -228,8 +228,10 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    // The conversions to std::int64_t must round down, and negative years are
+    // possible, so we add an offset which is a multiple of 400 years.
+    double const A = static_cast<std::int64_t>((Y + 8000) / 100) - 80;
+    B = 2 - A + static_cast<std::int64_t>((A + 80) / 4) - 20;
   }
   return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
          static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
-- 
2.43.0


From b2347a490e96eafa9ac69f35c3eaa60941edd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 37/45] fix: reject malformed dates and times

---
 astronomy/date_time_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index ffaa704..91d4f37 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -639,6 +639,7 @@ constexpr Date DateParser::ToDate(std::optional<Calendar> const calendar,
                                   bool const negative) const {
   auto const signed_digits = negative ? -digits_ : digits_;
   if (digit_count_ == 8) {
+    CONSTEXPR_CHECK(!has_w_);
     CONSTEXPR_CHECK(hyphens_ == 0 ||
                     (hyphens_ == 2 &&
                      first_hyphen_index_ == 4 &&
@@ -831,8 +832,9 @@ constexpr TimeOfDay TimeParser::ToTime() const {
                    second_colon_index_ == 5));
   CONSTEXPR_CHECK(
       (digit_count_ == hhmmss && !has_decimal_mark_) ||
-      (has_decimal_mark_ && ((colons_ == 0 && decimal_mark_index_ == 6) ||
-                             (colons_ != 0 && decimal_mark_index_ == 8))));
+      (digit_count_ > hhmmss && has_decimal_mark_ &&
+       ((colons_ == 0 && decimal_mark_index_ == 6) ||
+        (colons_ != 0 && decimal_mark_index_ == 8))));
   return TimeOfDay::hhmmss_ms(
       digit_range(digits_, digit_count_ - hhmmss, digit_count_),
       shift_left(digit_range(digits_, 0, digit_count_ - hhmmss),
-- 
2.43.0


From 62c07b25c03cf136be6691423cdb3596bdbd5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 38/45] fix: dates and times with a negative year

---
 astronomy/date_time_body.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 91d4f37..daa4fd9 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -1028,10 +1028,13 @@ constexpr bool operator!=(DateTime const& left, DateTime const& right) {
 
 constexpr DateTime operator""_DateTime(char const* const str,
                                        std::size_t const size) {
+  // The hyphens that separate the parts of the date come after the four digits
+  // of the year, unlike the sign.
+  CONSTEXPR_CHECK(size > 4);
   // Given correctness of the date and time parts of the string, this check
   // ensures that either both are in basic format or both are in extended
   // format.
-  CONSTEXPR_CHECK(contains(str, size, '-') == contains(str, size, ':'));
+  CONSTEXPR_CHECK(contains(str + 4, size - 4, '-') == contains(str, size, ':'));
   const int index_of_T = index_of(str, size, 'T');
   return DateTime(DateParser::Parse(str, index_of_T),
                   TimeParser::Parse(str + index_of_T + 1,
-- 
2.43.0


From 54b55e093c2c255c96ab799c825f4cb31e99ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 39/45] fix: only the last second of the day is shortened by a
 negative leap

---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From b6a6670d42419db1c3c572b4b987532dd8974662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 40/45] fix: do not read past the end of the series of Earth
 orientation parameters

---
 astronomy/time_scales_body.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index 727f332..d0a00d3 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -423,6 +423,7 @@ constexpr Instant ExperimentalEOPC02ToEOPC04(ExperimentalEOPC02Entry const& low,
 }
 
 constexpr Instant FromUT1(Time const ut1) {
+  CONSTEXPR_CHECK(ut1 < eop_c04.back().ut1());
   if (ut1 < eop_c04.front().ut1()) {
     if ((LookupInExperimentalEOPC02(ut1) + 1)->ut1_mjd >
         mjd(eop_c04.front().ut1())) {
@@ -441,6 +442,8 @@ constexpr Instant FromUT1(Time const ut1) {
 constexpr Angle EarthRotationAngle(Instant const tt) {
   CONSTEXPR_CHECK(tt >= eop_c04.front().tt())
       << "EarthRotationAngle is not implemented before 1962.";
+  CONSTEXPR_CHECK(tt < eop_c04.back().tt())
+      << "EarthRotationAngle is not implemented after the end of EOP C04.";
 
   int ut1_julian_day_number_minus_2451545{};
   double const ut1_julian_day_fraction = InterpolatedEOPC04JulianDayFraction(
-- 
2.43.0


From 2ba22a613fdc484f640d476971f41ec261d33a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:44 +0000
Subject: [PATCH 41/45] fix: Apsides whose Hermite approximation has no
 extremum in its interval use the linear interpolation

---
 physics/apsides_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index 27418b7..1f0fab0 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -105,11 +105,11 @@ void ComputeApsides(Trajectory<Frame> const& reference,
       BoundedArray<Instant, 2> const extrema =
           squared_distance_approximation.FindExtrema();
 
-      // Now look at the extrema and check that exactly one is in the required
+      // Now look at the extrema and check that at least one is in the required
       // time interval.  This is normally the case, but it can fail due to
       // ill-conditioning.
       Instant apsis_time;
-      if (extrema.size() != 1) {
+      if (extrema.empty()) {
         // Something went wrong when finding the extrema of
         // `squared_distance_approximation`. Use a linear interpolation of
         // `squared_distance_derivative` instead.
@@ -121,8 +121,9 @@ void ComputeApsides(Trajectory<Frame> const& reference,
         LOG_IF(WARNING, apsis_time == previous_time)
             << "Suspicious apsis at the beginning of a time interval: "
             << apsis_time;
+      } else {
+        apsis_time = extrema.back();
       }
-      apsis_time = extrema.back();
 
       // This can happen for instance if the square distance is stationary.
       // Safer to give up.
-- 
2.43.0


From 17b0e39a5105dd113b1cbb47382726145464177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:44 +0000
Subject: [PATCH 42/45] fix: A node is ascending or descending according to the
 sign of z after it

---
 physics/apsides_body.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index 1f0fab0..c0cb3ab 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -532,8 +532,11 @@ absl::Status ComputeNodes(
       DegreesOfFreedom<Frame> const node_degrees_of_freedom =
           trajectory.EvaluateDegreesOfFreedom(node_time);
       if (predicate(node_degrees_of_freedom)) {
+        // Since `z` changed sign, its sign after the node tells which way we are
+        // going.  The sign of `z_speed` doesn't, as the trajectory may have
+        // turned around since the node.
         if (Sign(InnerProduct(north, Vector<double, Frame>({0, 0, 1}))) ==
-            Sign(z_speed)) {
+            Sign(z)) {
           // `north` is up and we are going up, or `north` is down and we are
           // going down.
           ascending.emplace(node_time, node_degrees_of_freedom);
-- 
2.43.0


From c859eaa4717cb5e9d8c3c659e729ec5a0a9e1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:44 +0000
Subject: [PATCH 43/45] fix: Find the roots of the height above the terrain as
 accurately as possible

---
 physics/apsides_body.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index c0cb3ab..9c213a9 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -3,6 +3,7 @@
 #include "physics/apsides.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <list>
 #include <optional>
 #include <vector>
@@ -49,9 +50,6 @@ using namespace principia::quantities::_si;
 // be evaluated 5 times per interval we could easily miss significant features
 // of the terrain.
 constexpr int max_чебышёв_degree = 8;
-// The error bound `max_collision_error` is guaranteed to be met if the vessel
-// is slower than this.
-constexpr Speed max_collision_speed = 10'000 * Metre / Second;
 
 template<typename Frame>
 void ComputeApsides(Trajectory<Frame> const& reference,
@@ -422,18 +420,17 @@ ComputeFirstCollision(
   std::optional<Instant> first_collision_time;
   TerminationPredicate<Length, Instant> const stop =
       [&first_collision_time,
-       max_collision_error,
        &number_of_evaluations](auto interpolant) -> bool {
     if (interpolant->MayHaveRealRoots()) {
-      // The relative error on the roots is choosen so that it corresponds to an
-      // absolute error in distance similar to `max_collision_error`, assuming
-      // that the speed is below `max_collision_speed`.  We don't care too much
-      // about the performance of this computation, because the zero-free test
-      // is very efficient.
-      auto const& real_roots = interpolant->RealRoots(
-          max_collision_error /
-          ((interpolant->upper_bound() - interpolant->lower_bound()) *
-           max_collision_speed));
+      // Ask for roots that are as accurate as possible.  The relative error on
+      // the roots applies to the entries of the companion matrix, which are very
+      // large when the interpolant has converged, i.e., when its leading
+      // coefficient is small.  Anything coarser would not guarantee an error in
+      // distance below `max_collision_error`, and could even miss the first
+      // root.  We don't care too much about the performance of this computation,
+      // because the zero-free test is very efficient.
+      auto const& real_roots =
+          interpolant->RealRoots(std::numeric_limits<double>::epsilon());
       if (real_roots.empty()) {
         VLOG(1) << "No real roots over [" << interpolant->lower_bound() << ", "
                 << interpolant->upper_bound() << "]";
-- 
2.43.0


From 9d7595b45290e666ebae2a42140f8cc230953863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:30 +0000
Subject: [PATCH 44/45] fix: keep the interpolated apsides and nodes within
 their time interval

---
 physics/apsides_body.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/physics/apsides_body.hpp b/physics/apsides_body.hpp
index 9c213a9..ce73c0a 100644
--- a/physics/apsides_body.hpp
+++ b/physics/apsides_body.hpp
@@ -111,9 +111,13 @@ void ComputeApsides(Trajectory<Frame> const& reference,
         // Something went wrong when finding the extrema of
         // `squared_distance_approximation`. Use a linear interpolation of
         // `squared_distance_derivative` instead.
-        apsis_time = Barycentre({time, *previous_time},
-                                {*previous_squared_distance_derivative,
-                                 -squared_distance_derivative});
+        // Rounding must not take us out of the time interval.
+        apsis_time =
+            std::clamp(Barycentre({time, *previous_time},
+                                  {*previous_squared_distance_derivative,
+                                   -squared_distance_derivative}),
+                       *previous_time,
+                       time);
         // This happens if `*previous_squared_distance_derivative` is 0.  It is
         // indicative of ill-conditioning, but not in and of itself a problem.
         LOG_IF(WARNING, apsis_time == previous_time)
@@ -513,8 +517,11 @@ absl::Status ComputeNodes(
       if (Sign(z_approximation(*previous_time)) ==
           Sign(z_approximation(time))) {
         // The Hermite approximation is poorly conditioned, let's use a linear
-        // approximation
-        node_time = Barycentre({*previous_time, time}, {z, -*previous_z});
+        // approximation.  Rounding must not take us out of the time interval.
+        node_time =
+            std::clamp(Barycentre({*previous_time, time}, {z, -*previous_z}),
+                       *previous_time,
+                       time);
       } else {
         // The normal case, find the intersection with z = 0 using Brent's
         // method.
-- 
2.43.0


From f3987ad67afdff3ed692867ac2d83a510d1ebc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:30 +0000
Subject: [PATCH 45/45] fix: no NaN in EulerSolver when rounding makes the
 angular momentum exceed its norm along the intermediate axis

---
 physics/euler_solver_body.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/physics/euler_solver_body.hpp b/physics/euler_solver_body.hpp
index 1c6cdab..7f9a330 100644
--- a/physics/euler_solver_body.hpp
+++ b/physics/euler_solver_body.hpp
@@ -224,7 +224,9 @@ EulerSolver<InertialFrame, PrincipalAxesFrame>::EulerSolver(
       break;
     }
     case Formula::iii: {
-      ν_ = -ArcTanh(m.y / G_);
+      // Because of rounding errors, `m.y` may slightly exceed `G_` when rotating
+      // about the intermediate axis.
+      ν_ = -ArcTanh(std::clamp(m.y / G_, -1.0, 1.0));
       auto const λ₂ = Sqrt(-Δ₁ * Δ₃ / (I₁ * I₃)) / G_;
       λ_ = λ₂;
 
-- 
2.43.0


From 1845c24ba7e89e51d7932e002df403719b976059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:35 +0000
Subject: [PATCH 01/14] fix: keep the sticky bit of the product in fma

When the addend is much larger than the product, the product is shifted
right and the bits shifted out have to be remembered for rounding. The
check for lost bits looked at the already shifted value, so a product just
above a rounding tie was treated as an exact tie.
---
 libm/src/math/generic/fma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..371d413 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -70,10 +70,10 @@ where
             if d == 0 {
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
-                // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`. Set the
+                // sticky bit if anything nonzero was shifted out.
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From d497efcaf6ef88f580ce2dc0c6b920d99606271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:35 +0000
Subject: [PATCH 02/14] fix: avoid an overflow panic in hypot

Both values are kept modulo 2^64 and only their difference is meaningful.
Subtracting them as signed integers overflowed for some arguments, which
panics when overflow checks are enabled.
---
 libm/src/math/hypot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/hypot.rs b/libm/src/math/hypot.rs
index e8bd44c..4328c96 100644
--- a/libm/src/math/hypot.rs
+++ b/libm/src/math/hypot.rs
@@ -202,7 +202,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         rm += 1 + (rm >= (1u64 << 53)) as u64;
         let tm: u64 = rm << k;
         let rm2: u64 = tm.wrapping_mul(tm);
-        d = m2 as i64 - rm2 as i64;
+        d = m2.wrapping_sub(rm2) as i64;
 
         if d <= 0 {
             break;
@@ -213,7 +213,7 @@ fn as_hypot_hard(x: f64, y: f64, flag: FExcept) -> f64 {
         set_flags(flag);
     } else if op == om {
         let tm: u64 = (rm << k) - (1 << (k - (rm <= (1u64 << 53)) as i32));
-        d = m2 as i64 - (tm.wrapping_mul(tm)) as i64;
+        d = m2.wrapping_sub(tm.wrapping_mul(tm)) as i64;
 
         if d == 0 {
             cold_path();
-- 
2.43.0


From 8e629bc8d1acf1a8b621fdc0b37396479dc5b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:21 +0000
Subject: [PATCH 03/14] fix: round subnormal results of fmaf once

The sum is computed in the next larger type and then narrowed. A correction
avoids rounding twice when the wide result is halfway between two values,
but it only looked for the halfway point of a normal result. Subnormal
results keep fewer bits, so theirs is further up and the correction was
skipped.
---
 libm/src/math/generic/fma_wide.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/generic/fma_wide.rs b/libm/src/math/generic/fma_wide.rs
index e7d5406..d1ceda3 100644
--- a/libm/src/math/generic/fma_wide.rs
+++ b/libm/src/math/generic/fma_wide.rs
@@ -27,9 +27,14 @@ where
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
+    // `F` has less precision for subnormal results so a halfway case can be at any higher bit. The
+    // larger precision is fine if the last bit is set, since that cannot be a halfway case.
+    let subnormal = re < (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let may_be_halfway = excess_prec == halfway || (subnormal && (ui & one) == IntTy::<B>::ZERO);
+
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if !may_be_halfway
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
-- 
2.43.0


From e19b7a19f894266bf7469e470087c26724eb8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:53 +0000
Subject: [PATCH 04/14] fix: report no inexact status for rint of NaN

NaN never compares equal to itself, so the check for an unchanged value
reported every NaN as inexact. The other rounding functions do not.
---
 libm/src/math/generic/rint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/generic/rint.rs b/libm/src/math/generic/rint.rs
index aa3d94e..2ab5d0c 100644
--- a/libm/src/math/generic/rint.rs
+++ b/libm/src/math/generic/rint.rs
@@ -41,7 +41,7 @@ pub fn rint_status<F: Float>(x: F) -> FpResult<F> {
         }
     };
 
-    let status = if res == x {
+    let status = if res == x || x.is_nan() {
         Status::OK
     } else {
         Status::INEXACT
-- 
2.43.0


From 72fb0953530def49a423764a49c2004fb271ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:56 +0000
Subject: [PATCH 05/14] fix: do not underflow or overflow early in powf

For |y| just above 2^27 and x slightly below 1, powf returned 0 or infinity although
the result is representable: powf(0.99999946, 134217744.0) is about 5.4e-32. Move the
threshold to the largest x whose power underflows for every such y.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 17772ae..2bfa186 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 {
                 sn * HUGE * HUGE
             } else {
-- 
2.43.0


From dd17ddba65f00d95ab2296f6282206cfae496f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:18 +0000
Subject: [PATCH 06/14] fix: keep the low bits of the logarithm in pow for
 bases near 1

For |y| > 2^31 the product of the leading part of 1/ln2 and x - 1 was rounded, which
cost up to some hundred ULP in the result: pow(0.999999761581421, 2147485696.0) was
112 ULP off. Split x - 1 so that the leading product is exact.
---
 libm/src/math/pow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 87eaab3..6ce6227 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -257,8 +257,9 @@ pub fn pow(x: f64, y: f64) -> f64 {
         log(x) by x-x^2/2+x^3/3-x^4/4 */
         let t: f64 = ax - 1.0; /* t has 20 trailing zeros */
         let w: f64 = (t * t) * (0.5 - t * (0.3333333333333333333333 - t * 0.25));
-        let u: f64 = IVLN2_H * t; /* ivln2_h has 21 sig. bits */
-        let v: f64 = t * IVLN2_L - w * IVLN2;
+        let t_h: f64 = with_set_low_word(t, 0);
+        let u: f64 = IVLN2_H * t_h; /* exact: ivln2_h has 24 sig. bits, t_h has 21 */
+        let v: f64 = (t - t_h) * IVLN2_H + t * IVLN2_L - w * IVLN2;
         t1 = with_set_low_word(u + v, 0);
         t2 = v - (t1 - u);
     } else {
-- 
2.43.0


From e4c6e6f28f30f0ce371475f5e7ef00c63d78f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:33 +0000
Subject: [PATCH 07/14] fix: handle huge exponents when parsing hex floats

Exponents beyond 32 bits wrapped around (0x1p4294967299 parsed as 8), exponents near
the limits of i32 panicked with overflow checks, and 0x1p65536 parsed as 1.0 for f128.
---
 libm/src/math/support/hex_float.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 607ba79..0db752a 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -154,7 +154,11 @@ const fn parse_finite(
     // The parsed value is X = sig * 2^exp
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
-    let uexp = (exp - min_lsb) as u128;
+    let mut uexp = (exp - min_lsb) as u128;
+    if uexp > 1 << exp_bits {
+        // larger than any finite value, make sure that shifting does not lose this
+        uexp = 1 << exp_bits;
+    }
     let uexp = uexp << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
@@ -219,6 +223,9 @@ struct Parsed {
     exp: i32,
 }
 
+/// Limit for the magnitude of a parsed exponent
+const MAX_EXP: i32 = 1 << 30;
+
 /// Parse a hexadecimal float x
 const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
     let mut sig: u128 = 0;
@@ -291,8 +298,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
@@ -307,6 +313,14 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
         exp = exp.saturating_add_unsigned(pexp);
     };
 
+    // Leave room for adjusting the exponent. Values beyond these limits overflow or
+    // underflow in every supported format, and so do the limits.
+    if exp > MAX_EXP {
+        exp = MAX_EXP;
+    } else if exp < -MAX_EXP {
+        exp = -MAX_EXP;
+    }
+
     Ok(Parsed { sig, exp })
 }
 
-- 
2.43.0


From 9d354ce6027c7cc033294a5f5d16a7ebb0480e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:37 +0000
Subject: [PATCH 08/14] fix: require OS support of AVX before using FMA4

---
 libm/src/math/arch/x86/detect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..ddda073 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -118,6 +118,7 @@ fn load_x86_features() -> Flags {
     enable(extended_features_eax_leaf_1, 31, cpu_flags::MOVRS);
 
     // `XSAVE` and `AVX` support:
+    let mut os_avx_support = false;
     let cpu_xsave = proc_info_ecx.test_nth(26);
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
@@ -147,7 +148,7 @@ fn load_x86_features() -> Flags {
             // This is safe because the CPU supports `xsave` and the OS has set `osxsave`.
             let xcr0 = unsafe { _xgetbv(0) };
             // Test `XCR0.SSE[1]` and `XCR0.AVX[2]` with the mask `0b110 == 6`:
-            let os_avx_support = xcr0 & 6 == 6;
+            os_avx_support = xcr0 & 6 == 6;
             // Test `XCR0.AVX-512[7:5]` with the mask `0b1110_0000 == 0xe0`:
             let os_avx512_support = xcr0 & 0xe0 == 0xe0;
 
@@ -188,8 +189,8 @@ fn load_x86_features() -> Flags {
     // (AMD64 Architecture Programmer's Manual, Appendix E).
     // Related Hygon kernel patch can be found on
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
-    if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
-        // These features are available on AMD arch CPUs:
+    if os_avx_support && (vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine") {
+        // These features are available on AMD arch CPUs (FMA4 uses the AVX registers):
         enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
     }
 
-- 
2.43.0


From fd42db03f8968007bf602e66be9ab8ad4df1a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:57 +0000
Subject: [PATCH 09/14] fix: accept statically linked executables in symcheck

Without PT_INTERP they were treated like object files and rejected for having
no .note.GNU-stack section, although their PT_GNU_STACK header is not
executable.
---
 crates/symcheck/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symcheck/src/main.rs b/crates/symcheck/src/main.rs
index a88aeed..27a8b1a 100644
--- a/crates/symcheck/src/main.rs
+++ b/crates/symcheck/src/main.rs
@@ -845,7 +845,8 @@ fn check_elf_exe_stack(obj: &ObjFile) -> Result<(), ExeStack> {
         _ => panic!("should only be called with elf objects"),
     }
 
-    if is_obj_exe {
+    // Statically linked executables have no PT_INTERP, but PT_GNU_STACK still says it all.
+    if is_obj_exe || found_gnu_stack {
         return Ok(());
     }
 
-- 
2.43.0


From cfb87d4d14189f4ef29663ba02ca579ac36b6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:20 +0000
Subject: [PATCH 10/14] fix: don't let local symbols satisfy references to core
 in symcheck

A local definition in one object does not resolve an undefined reference in
another, so such an archive was accepted although it does not link.
---
 crates/symcheck/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symcheck/src/main.rs b/crates/symcheck/src/main.rs
index 27a8b1a..8c2cc01 100644
--- a/crates/symcheck/src/main.rs
+++ b/crates/symcheck/src/main.rs
@@ -552,7 +552,8 @@ fn verify_core_symbols(archive: &BinFile) {
         let sym = SymInfo::new(&symbol, obj, member);
         if sym.is_undefined {
             undefined.push(sym);
-        } else {
+        } else if !sym.is_local {
+            // References from other objects aren't resolved by local symbols.
             defined.insert(sym.name);
         }
     });
-- 
2.43.0


From 9f797af68316b9e3a82e6b786796c7e2e6c47bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:40 +0000
Subject: [PATCH 11/14] fix: read negative hexadecimal input in the util CLI

Negative integers such as `-0x10` ended in an unwrap of `None`, and
negative f128 hex floats such as `-0x1p3` were rejected as invalid.
---
 crates/util/src/main.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index aa79354..8e751d3 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -338,7 +338,7 @@ macro_rules! impl_parse_tuple_int {
         impl FromStrRadix for $ty {
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseIntError> {
                 let s = strip_radix_prefix(s, radix);
-                <$ty>::from_str_radix(s, radix)
+                <$ty>::from_str_radix(&s, radix)
             }
         }
     };
@@ -390,7 +390,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
@@ -415,7 +415,7 @@ impl FromStrRadix for f16 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u16::from_str_radix(s, radix).map(Self::from_bits)
+        u16::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -427,7 +427,7 @@ impl FromStrRadix for f32 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u32::from_str_radix(s, radix).map(Self::from_bits)
+        u32::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -438,7 +438,7 @@ impl FromStrRadix for f64 {
         }
 
         let s = strip_radix_prefix(s, radix);
-        u64::from_str_radix(s, radix).map(Self::from_bits)
+        u64::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
@@ -449,16 +449,16 @@ impl FromStrRadix for f128 {
             return Ok(libm::support::hf128(s));
         }
         let s = strip_radix_prefix(s, radix);
-        u128::from_str_radix(s, radix).map(Self::from_bits)
+        u128::from_str_radix(&s, radix).map(Self::from_bits)
     }
 }
 
-fn strip_radix_prefix(s: &str, radix: u32) -> &str {
-    if radix == 16 {
-        s.strip_prefix("0x").unwrap()
-    } else if radix == 2 {
-        s.strip_prefix("0b").unwrap()
-    } else {
-        s
-    }
+/// Remove the `0x` or `0b` prefix, keeping the sign if there is one.
+fn strip_radix_prefix(s: &str, radix: u32) -> String {
+    let prefix = match radix {
+        16 => "0x",
+        2 => "0b",
+        _ => "",
+    };
+    s.replacen(prefix, "", 1)
 }
-- 
2.43.0


From c07cde49c0c6e5b786d01bc14108d55f97ca597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:40 +0000
Subject: [PATCH 12/14] fix: strip all type suffixes from conversion names in
 libm-macros

Names such as `extend_f32_f64` and `ftoi_f32_i64` got the base names
`extend_` and `ftoi_`, since each suffix was only tried once.
---
 crates/libm-macros/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/libm-macros/src/lib.rs b/crates/libm-macros/src/lib.rs
index 7bafd0c..1df6876 100644
--- a/crates/libm-macros/src/lib.rs
+++ b/crates/libm-macros/src/lib.rs
@@ -505,11 +505,9 @@ fn base_name(name: &str) -> &str {
     let mut any_found = false;
     let mut ret = name;
 
-    for sfx in strip {
-        if let Some(stripped) = ret.strip_suffix(sfx) {
-            ret = stripped;
-            any_found = true;
-        }
+    while let Some(stripped) = strip.iter().find_map(|sfx| ret.strip_suffix(sfx)) {
+        ret = stripped;
+        any_found = true;
     }
 
     // Only if no suffix was stripped, try stripping the C-style float suffix.
-- 
2.43.0


From 1c7d0a94e3a6d402f2e62900e700efc646111cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:04 +0000
Subject: [PATCH 13/14] fix: round decimal f128 input only once in the util CLI

Input was rounded to 128 bits and then to the 113 bits of the type, so
numbers just above the middle of two values could be read as the lower.
---
 crates/util/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index 8e751d3..7fd60d8 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -399,7 +399,16 @@ where
     }
 
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    // Truncate and then make the last bit of inexact values odd, so only the final conversion
+    // rounds.
+    let (mut x, dir) = rug::Float::with_val_round(F::BITS, x, rug::float::Round::Zero);
+    if dir.is_ne() && rug::Float::with_val(F::BITS - 1, &x) == x {
+        if x.is_sign_negative() {
+            x.next_down();
+        } else {
+            x.next_up();
+        }
+    }
     x.az()
 }
 
-- 
2.43.0


From 999935826bc69fc3b6bd3ca31a7388e7be30fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:24 +0000
Subject: [PATCH 14/14] fix: keep saved registers when probing small frames on
 32-bit UEFI

The return address was copied below the new frame while the saved
registers were still on the stack. For frames of 4, 8 and 12 bytes it
replaced one of them, so edx, ecx or ebp came back changed.
---
 compiler-builtins/src/probestack.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compiler-builtins/src/probestack.rs b/compiler-builtins/src/probestack.rs
index c4a2eeb..80eb767 100644
--- a/compiler-builtins/src/probestack.rs
+++ b/compiler-builtins/src/probestack.rs
@@ -189,7 +189,6 @@ pub unsafe extern "custom" fn __rust_probestack() {
             mov    ebp, esp
             .cfi_def_cfa_register ebp
             push   ecx
-            push   edx
             mov    ecx, eax
 
             cmp    ecx, 0x1000
@@ -204,17 +203,17 @@ pub unsafe extern "custom" fn __rust_probestack() {
         3:
             sub    esp, ecx
             test   dword ptr [esp + 8], esp
-            mov    edx, dword ptr [ebp + 4]
-            mov    dword ptr [esp + 12], edx
             add    esp, eax
-            pop    edx
             pop    ecx
             leave
 
+            // Only now that everything is restored is the return address copied below the
+            // frame: if the frame is small, the saved registers were in the way before.
             sub   esp, eax
+            push  dword ptr [esp + eax]
             .cfi_def_cfa_register esp
             .cfi_adjust_cfa_offset -4
-            ret
+            ret   4
             .cfi_endproc
         ",
     )
-- 
2.43.0


From 76fe081133d3a7c31dd6fe7b7c6738d282146010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 1/5] fix: build without std (gate the std::error::Error impl
 on the std feature)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From bcfe4c276fd0c73f9ebc3715b3f286b77ba3f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 2/5] fix: use the published linear counting threshold (20) for
 precision 5

---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..5190cde 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0


From 0745b2b12fa7f2b533502b6e354ff32484c1783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 3/5] fix: linear counting in the sparse representation is over
 2^25 buckets, not 2^24

---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 5190cde..4391e20 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0


From c9b669addd3a2028de996ae4211842444c2dcbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 4/5] fix: saturate the large range correction instead of
 returning NaN

---
 src/hyperloglog.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..aed42fc 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,7 +190,12 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            //
+            // The correction is not defined once the raw estimate reaches
+            // the size of the hash space, saturate right below it.
+            let ratio = (raw / two32).min(1.0 - 1.0 / two32);
+
+            raw = -1.0 * two32 * ln(1.0 - ratio);
         }
 
         raw
-- 
2.43.0


From 1302a2b2acf0d9f774d360f13a35b47cb4cabbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 5/5] fix: the raw estimate overflowed on 32-bit platforms from
 precision 16 on

count * count is 2^32 there already at precision 16, which wraps to zero in
usize (or panics with overflow checks), so HyperLogLog++ reported negative
estimates.
---
 src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 514a40d..420bfbb 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -158,7 +158,7 @@ pub trait HyperLogLogCommon {
             zeros += if value == 0 { 1 } else { 0 };
         }
 
-        raw = Self::alpha(count) * (count * count) as f64 / raw;
+        raw = Self::alpha(count) * (count as f64 * count as f64) / raw;
 
         (raw, zeros)
     }
@@ -172,7 +172,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| 1.0 / (1u64 << val) as f64).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[cfg(feature = "const-loop")]
@@ -184,7 +184,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| RAW[val as usize]).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[inline] // Estimates the count of distinct elements using linear
-- 
2.43.0


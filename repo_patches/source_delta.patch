From 9f4a4fa0617f0a139fa3ef3d2896a4c9f0d975f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 1/3] fix: build without std (gate the std::error::Error impl)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From 648a003580f180d3ec44d1f2dd730f2b72574d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 2/3] fix: HyperLogLogPF::count() returned NaN for saturated
 sketches

---
 src/hyperloglog.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..48baef6 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -188,8 +188,11 @@ where
         if raw <= 2.5 * self.count as f64 && zeros != 0 {
             // Apply small range correction.
             raw = Self::linear_count(self.count, zeros);
-        } else if raw > two32 / 30.0 {
+        } else if raw > two32 / 30.0 && raw < two32 {
             // Apply large range correction.
+            //
+            // It is not defined (NaN) once the raw estimate reaches the size
+            // of the 32-bit hash space.
             raw = -1.0 * two32 * ln(1.0 - raw / two32);
         }
 
-- 
2.43.0


From 98ddee61ec759ff72aaffc89090f1425fb99578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 3/3] fix: use 2^25 buckets for linear counting in the sparse
 representation

Sparse codes hold 25-bit indices, so (as in the paper) m' is 2^25. With 2^24
the estimate was biased upwards by n/2^26, over ten standard deviations of the
sparse representation's own error at precision 18 and 90000 values.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..1f40d8e 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0


From 2b3101e2bf7585636744b6b059c575edcac94745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:16 +0000
Subject: [PATCH] fix: refuse application header suffixes that wrap onto
 internal ones

Suffix::get() added NUM_INTERNAL_SUFFIXES to the application's number with
wrapping arithmetic in release builds, so Suffix::new(usize::MAX) encoded as the
suffix of the trivial header () and Suffix::new(usize::MAX - 1) as internal
suffix 0.
---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..9f4e1ec 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `value` is so large that its encoding would wrap around onto
+    /// an internal suffix.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is out of range"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0


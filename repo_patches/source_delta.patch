From 9c3f794bf09acbf6701dd11ef3a81779dfd5c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:50 +0000
Subject: [PATCH 1/7] fix: clear the last output of OneZero and TwoZero

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From f4b55fe0d212bce51afbd3b47bf93dfe8e80459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:51 +0000
Subject: [PATCH 2/7] fix: windows of size one are 1, not NaN

---
 src/window/bartlett.rs        | 2 ++
 src/window/blackman.rs        | 2 ++
 src/window/blackman_harris.rs | 2 ++
 src/window/hamming.rs         | 2 ++
 src/window/hann.rs            | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..cb7adf5 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,8 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..7dfd1f0 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..e7076a5 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..0a24095 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,8 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..b23048d 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,8 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0


From e18ea58cebbf4840fbe622000dfc3ecc78df6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 3/7] fix: window iterators report the number of remaining
 items

---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index cb7adf5..d46b26f 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 7dfd1f0..bd2fdee 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index e7076a5..3f7e12a 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -53,11 +53,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index 0a24095..182af6e 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index b23048d..81cbabb 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 2cca4c17f2e617732076a49abe5cc7ecc79ef852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 4/7] fix: process_block accepts an empty slice

---
 src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..6fef79b 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,7 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    self.last_out()
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From 2ed8432c6d76f96f1ea9ea9ca563e9321a075b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:20 +0000
Subject: [PATCH 5/7] fix: raising the maximum delay keeps the stored samples
 in order

---
 src/delay/linear_delay.rs | 5 +++++
 src/delay/mod.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..5914e1b 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -73,7 +73,12 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
+    // put the stored samples in order, oldest first, before extending
+    self.memory.rotate_left(self.write_ptr);
+    self.write_ptr = self.memory.len();
     self.memory.resize(delay + 1, num::zero());
+    let current_delay = self.delay;
+    self.set_delay(current_delay);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..f3d4d2e 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,12 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
+      // put the stored samples in order, oldest first, before extending
+      self.memory.rotate_left(self.write_ptr);
+      self.write_ptr = self.memory.len();
       self.memory.resize(delay + 1, num::zero());
+      let current_delay = self.delay;
+      self.set_delay(current_delay);
     }
   }
 
-- 
2.43.0


From 74109e914e3cab5f8a2117fe97d181df98f0a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:22 +0000
Subject: [PATCH 6/7] fix: LinearDelay interpolates accurately for any delay
 and position

---
 src/delay/linear_delay.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 5914e1b..b117331 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -1,6 +1,7 @@
 use num;
 use num::traits::Float;
 
+use std::cmp;
 use traits::{
   Processor,
   TappableDelayLine
@@ -99,21 +100,17 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
-    let mut read_ptr_integer: f32 = self.write_ptr as f32 - delay_time;
     self.delay = delay_time;
 
-    while read_ptr_integer < 0f32 {
-      read_ptr_integer += self.memory.len() as f32;
-    }
-
-    // save integer part
-    self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
-    }
+    // save integer part, of the older sample
+    let older_delay = cmp::min(delay_time.ceil() as usize, self.memory.len() - 1);
+    self.read_ptr = (self.write_ptr + self.memory.len() - older_delay)
+                  % self.memory.len();
 
     // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
+    let older_delay: T = num::cast(older_delay as f32).unwrap();
+    let exact_delay: T = num::cast(delay_time).unwrap();
+    self.alpha = older_delay - exact_delay;
     self.om_alpha = T::one() - self.alpha;
   }
 
-- 
2.43.0


From 444e8c7e82ce3b661067e299f5aa2ab79a4d163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 7/7] fix: peeking at LinearDelay's next output has no effect

---
 src/delay/linear_delay.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index b117331..1678967 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -16,8 +16,6 @@ pub struct LinearDelay<T> {
   /// Delay time as a number of samples, which must be less than or equal to
   /// the size of the delay internal memory.
   delay: f32,
-  do_next_out: bool,
-  next_out: T,
   // Interpolation multiplers
   alpha: T,
   om_alpha: T
@@ -61,8 +59,6 @@ impl<T> LinearDelay<T> where T: Float {
         read_ptr: 0,
         write_ptr: 0,
         delay: 0f32,
-        do_next_out: true,
-        next_out: num::zero(),
         alpha: num::zero(),
         om_alpha: num::zero()
       };
@@ -121,22 +117,15 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Returns the value that will be output by the next call to `tick()`.
   pub fn next_out(&mut self) -> T {
-    if self.do_next_out {
-      // First half of interpolation
-      self.next_out = self.memory[self.read_ptr] * self.om_alpha;
-      // Second half
-      if self.read_ptr < self.memory.len() - 1 {
-        self.next_out = self.next_out
-                      + (self.memory[self.read_ptr + 1] * self.alpha);
-      }
-      else {
-        self.next_out = self.next_out + (self.memory[0] * self.alpha);
-      }
-
-      self.do_next_out = false
+    // First half of interpolation
+    let first_half = self.memory[self.read_ptr] * self.om_alpha;
+    // Second half
+    if self.read_ptr < self.memory.len() - 1 {
+      first_half + (self.memory[self.read_ptr + 1] * self.alpha)
+    }
+    else {
+      first_half + (self.memory[0] * self.alpha)
     }
-
-    return self.next_out;
   }
 }
 
@@ -149,7 +138,6 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
 
     // interpolate
     self.output = self.next_out();
-    self.do_next_out = true;
 
     // increment read_ptr
     self.read_ptr += 1;
-- 
2.43.0


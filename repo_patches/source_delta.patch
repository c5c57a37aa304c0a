From 33cbedb20207a0100c13af5a27bf2d140998f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:30 +0000
Subject: [PATCH 1/7] fix: processing an empty block panicked instead of being
 a no-op

---
 src/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..8312de7 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,10 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    match samples.last() {
+      Some(sample) => *sample,
+      None => self.last_out()
+    }
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From 95e71ca8b77abd37a8cf4b259016e858bda35087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:30 +0000
Subject: [PATCH 2/7] fix: OneZero and TwoZero kept the last output after
 clear()

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From 95781f5bfefee1e77577639b539632dda27e248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 3/7] fix: growing a delay line changed its delay and reordered
 its stored samples

---
 src/delay/linear_delay.rs | 7 +++++++
 src/delay/mod.rs          | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..91d12d0 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -73,7 +73,14 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
+    let added = delay + 1 - self.memory.len();
     self.memory.resize(delay + 1, num::zero());
+    // The oldest samples start at the write pointer, so the new space has to
+    // come before them to keep the stored samples in order
+    self.memory[self.write_ptr..].rotate_right(added);
+
+    let delay_time = self.delay;
+    self.set_delay(delay_time);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..0727fb5 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,14 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
+      let added = delay + 1 - self.memory.len();
       self.memory.resize(delay + 1, num::zero());
+      // The oldest samples start at the write pointer, so the new space has to
+      // come before them to keep the stored samples in order
+      self.memory[self.write_ptr..].rotate_right(added);
+
+      let delay_time = self.delay;
+      self.set_delay(delay_time);
     }
   }
 
-- 
2.43.0


From 5a3a0596480281dfd85dbe6de1dd1008ae735b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:32 +0000
Subject: [PATCH 4/7] fix: LinearDelay interpolated with a weight above one for
 delays rounding to the buffer end

---
 src/delay/linear_delay.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 91d12d0..cb156bb 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -110,13 +110,14 @@ impl<T> LinearDelay<T> where T: Float {
 
     // save integer part
     self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
-    }
 
     // save fractional part
     self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
+
+    if self.read_ptr == self.memory.len() {
+      self.read_ptr = 0;
+    }
   }
 
   /// Returns the current delay-line length, in samples.
-- 
2.43.0


From e137490f40d1531d1519063d54dd082401b6fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:33 +0000
Subject: [PATCH 5/7] fix: LinearDelay::next_out() cached a value that later
 calls made stale

---
 src/delay/linear_delay.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index cb156bb..d05a7e3 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -114,6 +114,7 @@ impl<T> LinearDelay<T> where T: Float {
     // save fractional part
     self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
+    self.do_next_out = true;
 
     if self.read_ptr == self.memory.len() {
       self.read_ptr = 0;
@@ -150,6 +151,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
   fn process(&mut self, sample: T) -> T {
     // write input sample into memory
     self.memory[self.write_ptr] = sample;
+    self.do_next_out = true;
     self.write_ptr += 1;
     self.write_ptr %= self.memory.len();
 
@@ -169,6 +171,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
       *sample = num::zero();
     }
     self.output = num::zero();
+    self.do_next_out = true;
   }
 
   fn last_out(&self) -> T {
@@ -191,6 +194,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = value;
+    self.do_next_out = true;
   }
 
   fn add_to(&mut self, value: T, tap_delay: usize) -> T {
@@ -199,6 +203,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = self.memory[tap as usize] + value;
+    self.do_next_out = true;
     self.memory[tap as usize]
   }
 }
-- 
2.43.0


From 1c7eaa2d06e7d2fdaaaac6430da6c667ffe6307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:34 +0000
Subject: [PATCH 6/7] fix: window iterators reported the full size as remaining
 length

---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..a49ab09 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..907a015 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..85f2102 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..f2db06c 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..cb81967 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From b847db43d8fde13714ada7afffba1d807b5401d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:34 +0000
Subject: [PATCH 7/7] fix: one point windows were NaN

---
 src/window/bartlett.rs        | 3 +++
 src/window/blackman.rs        | 3 +++
 src/window/blackman_harris.rs | 3 +++
 src/window/hamming.rs         | 3 +++
 src/window/hann.rs            | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index a49ab09..497f2aa 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,9 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point window has no width to divide by, its only sample is the peak
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 907a015..331ebf6 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point window has no width to divide by, its only sample is the peak
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 85f2102..048e1bf 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point window has no width to divide by, its only sample is the peak
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index f2db06c..88c6d54 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,9 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point window has no width to divide by, its only sample is the peak
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index cb81967..447d74b 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,9 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point window has no width to divide by, its only sample is the peak
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0


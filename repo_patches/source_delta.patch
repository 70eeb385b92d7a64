From 91b9bb0063e6ebeceaaac134d011ddaad669779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 1/8] fix: clone only the stored elements of CircularBuffer,
 not its uninitialized slots

---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..0bcaa4c 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only the stored elements can be cloned, the remaining slots are uninitialized
+        let mut result = Self::with_capacity(self.capacity());
+        result.extend(self.iter());
+        result
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From a33f2e0df53a59b6f7d4bd4e9858e9e0bb1adf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 2/8] fix: an empty interval contains no value

---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..9e85afe 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !(self.is_empty() || self > val || self < val)
     }
 
     /**
-- 
2.43.0


From a5059e671789533659880820dd8fd252ac7ee375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 3/8] fix: an empty interval intersects nothing

---
 src/interval/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index 9e85afe..a257d21 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !(self.is_empty() || other.is_empty() || self > other || self < other)
     }
 
     /**
-- 
2.43.0


From 0b65386b0b173f8d4d18be4a2942663c271f23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 4/8] fix: bounds of opposite kinds are never equal, so !=
 between them is true

---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0


From 6b4fae14d85d516c39e977b71acc2252a03900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 5/8] fix: keep free slots of CircularBuffer in MaybeUninit so
 that every element type works

---
 src/circular_buffer/circular.rs | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 0bcaa4c..d965c4f 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(unsafe{&*self.buffer[self.internal_index(0)].as_ptr()})
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(0)].as_mut_ptr()})
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&*self.buffer[self.internal_index(self.len()-1)].as_ptr()})
         }
     }
 
@@ -551,7 +551,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{&mut *self.buffer[self.internal_index(self.len()-1)].as_mut_ptr()})
         }
     }
 
@@ -582,7 +582,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +619,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +644,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +741,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +771,13 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        unsafe{&mut *self.buffer[self.internal_index(index)].as_mut_ptr()}
     }
 }
 
@@ -789,8 +789,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +804,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,12 +817,13 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
+    fn from(v : Vec<T>) -> Self {
         let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
+        let mut v = Vec::from_iter(v.into_iter().map(|x| MaybeUninit::new(x)));
+        v.push(MaybeUninit::uninit());
         v.shrink_to_fit();
         Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
+            buffer: v.into_boxed_slice(),
             start: 0,
             end: buf_len
         }
-- 
2.43.0


From 1095ae72bc10b65ed2917149d92651b189db7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 6/8] fix: DisjointSet::clear forgets the old forest even if
 dropping an element panics

---
 src/disjoint_set/disjoint_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disjoint_set/disjoint_set.rs b/src/disjoint_set/disjoint_set.rs
index 65794d2..dc610e3 100644
--- a/src/disjoint_set/disjoint_set.rs
+++ b/src/disjoint_set/disjoint_set.rs
@@ -230,8 +230,9 @@ impl<T, S> DisjointSet<T, S> where T:Eq + Hash , S:BuildHasher{
     }
 
     pub fn clear(&mut self) {
+        // In this order: dropping an element may panic, and then ids has no element left.
+        self.data_by_id.clear();
         self.ids.clear();
-        self.data_by_id.clear()
     }
 
     pub fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From d8e525a9a5088f0232235df3b6e03ae10b22deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 7/8] fix: in-place interval arithmetic that panics leaves no
 half changed interval

---
 src/interval/interval_math.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/interval/interval_math.rs b/src/interval/interval_math.rs
index 6855391..c343fb9 100644
--- a/src/interval/interval_math.rs
+++ b/src/interval/interval_math.rs
@@ -21,11 +21,14 @@ impl<T, U> Add<U> for Interval<T> where T:Ord+Add<U, Output=T>, U:Clone {
 
 impl<T> AddAssign<T> for Interval<T> where T:Ord+AddAssign + Clone {
     fn add_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        // Taken out so that a panic in an operation on the bounds does not leave them half changed.
+        if let Some(mut a) = self.imp.take() {
             a.lo += rhs.clone();
             a.up += rhs;
+            let mut result = Self {imp: Some(a)};
+            result.fix_after_modification();
+            *self = result;
         }
-        self.fix_after_modification()
     }
 }
 
@@ -48,11 +51,14 @@ impl<T, U> Sub<U> for Interval<T> where T:Ord+Sub<U, Output=T>, U:Clone {
 
 impl<T> SubAssign<T> for Interval<T> where T:Ord + SubAssign + Clone {
     fn sub_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        // Taken out so that a panic in an operation on the bounds does not leave them half changed.
+        if let Some(mut a) = self.imp.take() {
             a.lo -= rhs.clone();
             a.up -= rhs;
+            let mut result = Self {imp: Some(a)};
+            result.fix_after_modification();
+            *self = result;
         }
-        self.fix_after_modification()
     }
 }
 
@@ -76,11 +82,14 @@ impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {
 
 impl<T> MulAssign<T> for Interval<T> where T:Ord+MulAssign+Clone {
     fn mul_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        // Taken out so that a panic in an operation on the bounds does not leave them half changed.
+        if let Some(mut a) = self.imp.take() {
             a.lo *= rhs.clone();
             a.up *= rhs;
+            let mut result = Self {imp: Some(a)};
+            result.fix_after_modification();
+            *self = result;
         }
-        self.fix_after_modification()
     }
 }
 
@@ -106,11 +115,14 @@ impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {
 
 impl<T> DivAssign<T> for Interval<T> where T: Ord+DivAssign + Clone {
     fn div_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        // Taken out so that a panic in an operation on the bounds does not leave them half changed.
+        if let Some(mut a) = self.imp.take() {
             a.lo /= rhs.clone();
             a.up /= rhs;
+            let mut result = Self {imp: Some(a)};
+            result.fix_after_modification();
+            *self = result;
         }
-        self.fix_after_modification()
     }
 }
 
-- 
2.43.0


From db8529dccd6af8b4766bb233fbd84d457a68f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 8/8] fix: counting a sequence needs memory only for its
 distinct elements

---
 src/counter/counter.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/counter/counter.rs b/src/counter/counter.rs
index 7e26c90..d4b56a8 100644
--- a/src/counter/counter.rs
+++ b/src/counter/counter.rs
@@ -240,8 +240,7 @@ where
 {
     ///Creates Counter from provided iterator.
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let iter = iter.into_iter();
-        let mut cnt = Self::with_capacity(iter.size_hint().0);
+        let mut cnt = Self::default();
         for key in iter {
             cnt.push(key);
         }
@@ -256,9 +255,8 @@ where
 {
     ///Creates Counter from provided iterator.
     fn from_iter<I: IntoIterator<Item = &'a T>>(iter: I) -> Self {
-        let iter = iter.into_iter();
-        let mut cnt = Self::with_capacity(iter.size_hint().0);
-        for key in iter.map(|ref key| (*key).clone()) {
+        let mut cnt = Self::default();
+        for key in iter.into_iter().map(|ref key| (*key).clone()) {
             cnt.push(key);
         }
         cnt
@@ -311,8 +309,6 @@ where
 {
     ///Extends Counter with provided interator.
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let iter = iter.into_iter();
-        self.counter.reserve(iter.size_hint().0);
         for key in iter {
             self.push(key);
         }
@@ -326,9 +322,7 @@ where
 {
     ///Extends Counter with provided interator.
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let iter = iter.into_iter();
-        self.counter.reserve(iter.size_hint().0);
-        for key in iter.map(|&key| key) {
+        for key in iter.into_iter().map(|&key| key) {
             self.push(key);
         }
     }
-- 
2.43.0


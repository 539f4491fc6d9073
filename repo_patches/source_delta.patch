From 5ba76cc18c39897bb679a7b053ce72db466a7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 01/14] fix: RightSliceMap hashed an inverted range of each key

---
 .../src/specialized_maps/right_slice_map.rs               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..7091cba 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,7 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                k.hash(&bh, k.len() - range.end..k.len() - range.start)
             }),
             bh,
             range,
@@ -76,10 +76,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From a77df3c51dc2a64ffa1cbfc5c62bda933a7f9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 02/14] fix: right-justified key analysis read past the end of
 keys for subslices longer than one

---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From dc4144c81b1c560bc5ff655dac31005ee0677765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 03/14] fix: count() on set iterators ignored how items were
 consumed

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From 30e30ac28332b2d439ae12e106ae80d4d703cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 04/14] fix: an empty IntegerRangeMap claimed to hold the key
 zero

---
 .../src/specialized_maps/integer_range_map.rs                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..1bfc588 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -28,7 +28,7 @@ where
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
             return Self {
-                min: K::zero(),
+                min: K::one(),
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From b7c758ca5314367a8c5f7d56741aafeb5c6b235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 05/14] fix: slice hashing read out of bounds for keys shorter
 than the slice

---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 .../src/specialized_maps/right_slice_map.rs                 | 6 +++++-
 frozen-collections-core/src/traits/slice_hash.rs            | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 7091cba..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
diff --git a/frozen-collections-core/src/traits/slice_hash.rs b/frozen-collections-core/src/traits/slice_hash.rs
index 9bbb91c..29f4872 100644
--- a/frozen-collections-core/src/traits/slice_hash.rs
+++ b/frozen-collections-core/src/traits/slice_hash.rs
@@ -12,7 +12,7 @@ impl SliceHash for String {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.as_bytes().get_unchecked(range) };
+        let b = &self.as_bytes()[range];
         h.write(b);
         h.finish()
     }
@@ -22,7 +22,7 @@ impl SliceHash for [u8] {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.get_unchecked(range) };
+        let b = &self[range];
         h.write(b);
         h.finish()
     }
-- 
2.43.0


From b75925a6a8883a0023e6b0fca77ef23b7e84436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 06/14] fix: size_hint on a partially consumed union overstated
 the number of items left

---
 .../src/specialized_sets/iterators.rs              | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..9b36ec1 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,19 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        // the larger set is fully visited first, followed by a subset of the smaller one
+        let (larger, smaller) = if self.s1.len() > self.s2.len() {
+            (self.s1_iter.size_hint(), self.s2_iter.size_hint())
+        } else {
+            (self.s2_iter.size_hint(), self.s1_iter.size_hint())
+        };
+
+        let upper = match (larger.1, smaller.1) {
+            (Some(x), Some(y)) => x.checked_add(y),
+            _ => None,
+        };
+
+        (larger.0, upper)
     }
 }
 
-- 
2.43.0


From 097421bdf697abb45a08e59b269262b8d7b2448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 07/14] fix: integer key analysis overflowed, and took keys
 with duplicates for a range

---
 .../src/analyzers/int_key_analyzer.rs         | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..74a2a42 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -16,22 +16,20 @@ where
     K: PrimInt,
     I: Iterator<Item = K>,
 {
-    let mut min = K::max_value();
-    let mut max = K::min_value();
-    let mut count = K::zero();
-    for key in keys {
-        min = min.min(key);
-        max = max.max(key);
-        count = count + K::one();
+    let mut keys: Vec<K> = keys.collect();
+    if keys.is_empty() {
+        return IntKeyAnalysisResult::Normal;
     }
 
-    if count == K::zero() {
-        IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
-        IntKeyAnalysisResult::Range
-    } else {
-        IntKeyAnalysisResult::Normal
+    keys.sort_unstable();
+
+    for i in 1..keys.len() {
+        if keys[i - 1].checked_add(&K::one()) != Some(keys[i]) {
+            return IntKeyAnalysisResult::Normal;
+        }
     }
+
+    IntKeyAnalysisResult::Range
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3b1d9642989a655c48ed56d679a03df8b20e2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 08/14] fix: IntegerRangeMap accepted payloads with duplicate
 keys, and overflowed on wide signed ranges

---
 .../src/specialized_maps/integer_range_map.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 1bfc588..615a5a6 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -39,11 +39,12 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
-            "IntegerRangeMap requires that the map keys be in a continuous range"
-        );
+        for i in 1..payload.len() {
+            assert!(
+                payload[i - 1].0.checked_add(&K::one()) == Some(payload[i].0),
+                "IntegerRangeMap requires that the map keys be in a continuous range"
+            );
+        }
 
         Self {
             min,
-- 
2.43.0


From 16014a3055fef5ece9f4b0f91ae68e4f06b5d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 09/14] fix: IntegerRangeMap lookups overflowed on wide signed
 ranges

---
 .../src/specialized_maps/integer_range_map.rs | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 615a5a6..95f5c20 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -17,6 +17,20 @@ pub struct IntegerRangeMap<K, V> {
     pub(crate) entries: Box<[(K, V)]>,
 }
 
+/// Returns how far `key` is above `min`, without overflowing on wide signed ranges.
+fn offset_from<Q>(min: Q, key: Q) -> Option<usize>
+where
+    Q: PrimInt,
+{
+    match key.checked_sub(&min) {
+        Some(offset) => offset.to_usize(),
+        None => key
+            .to_usize()?
+            .checked_add((!min).to_usize()?)?
+            .checked_add(1),
+    }
+}
+
 impl<K, V> IntegerRangeMap<K, V>
 where
     K: PrimInt,
@@ -63,7 +77,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from(*self.min.borrow(), *key)?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -78,7 +92,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from(*self.min.borrow(), *key)?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -120,7 +134,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from(*self.min.borrow(), *key)?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
-- 
2.43.0


From 85face8c19dcdcf38d9ceb19d2c123bf60c27189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 10/14] fix: hash tables could not be built with an S wider
 than usize

---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 3fc85f9..90b415e 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -40,7 +40,10 @@ where
                 }]),
                 entries: Box::new([]),
             };
-        } else if payload.len() > S::max_value().to_usize().unwrap() {
+        } else if S::max_value()
+            .to_usize()
+            .map_or(false, |max| payload.len() > max)
+        {
             panic!("Too many payload entries for the map size S")
         }
 
-- 
2.43.0


From 82c520773d3331d1ab5393932664ded471f4e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 11/14] fix: frozen_map! emitted code that does not compile for
 contiguous integer keys

---
 frozen-collections-core/src/macros/frozen_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..a919f84 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -186,6 +186,16 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             m
         }),
 
+        _ if int_analysis == IntKeyAnalysisResult::Range => quote!(
+        {
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            #(
+                (#kv_pairs),
+            )*
+            ]);
+            m
+        }),
+
         _ => quote!(
         {
             let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
-- 
2.43.0


From 951712ec310fec2885e3fcdfe842ce4e7f4c0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 12/14] fix: hash table layout counted entries in i32,
 overflowing on payloads of 2^31 entries

---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 90b415e..3ef13f3 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -61,7 +61,7 @@ where
         // sort items so hash collisions are contiguous
         prep_items.sort_unstable_by(|x, y| x.hash_slot_index.cmp(&y.hash_slot_index));
 
-        let mut entry_index = 0;
+        let mut entry_index: usize = 0;
         let mut slots = Vec::with_capacity(num_hash_slots);
         let mut entries = Vec::with_capacity(prep_items.len());
 
-- 
2.43.0


From 6029b4f4b4ee43044d620c14520bf99d4ad8a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 13/14] hook: reach the key analyses under cfg(frozen_verif)

---
 frozen-collections-core/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frozen-collections-core/src/lib.rs b/frozen-collections-core/src/lib.rs
index 2af3f41..3275901 100644
--- a/frozen-collections-core/src/lib.rs
+++ b/frozen-collections-core/src/lib.rs
@@ -5,3 +5,11 @@ pub mod macros;
 pub mod specialized_maps;
 pub mod specialized_sets;
 pub mod traits;
+
+/// Lets the verification harness reach the key analyses. Only present with `--cfg frozen_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(frozen_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::analyzers::*;
+}
-- 
2.43.0


From c3da1a64f7acf97bb5e618a83187a830d32a6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 14/14] fix: frozen_map! ignored the key type given for fewer
 than three entries

---
 frozen-collections-core/src/macros/frozen_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index a919f84..93bedb4 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -70,10 +70,11 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     };
 
     let mut kv_pairs = input.entries;
+    let mut ty = input.ty;
 
     if kv_pairs.len() < 3 {
         return quote!({
-            let m = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m = ::frozen_collections::specialized_maps::ScanningMap::<#ty, _>::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
@@ -82,7 +83,6 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         });
     }
 
-    let mut ty = input.ty;
     let type_name = format!("{}", ty.to_token_stream());
 
     let mut variety = KeyVariety::Integer;
-- 
2.43.0


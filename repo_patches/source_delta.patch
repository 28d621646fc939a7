From 8716c304f0f735d593b2630e29356c9a5bba87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 01/28] fix: optional header accessors panic on messages
 shorter than their flags claim

---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..88ad6df 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail.get(..4)?)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From dfbf811f317bac55b78a0c09c93bbef8217b3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/28] fix: message type info mask drops two of the four MTIN
 bits

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 88ad6df..b4b2549 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0x0f << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
-- 
2.43.0


From 26be03cafab6f23b2874738feaa10a88a4b4d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/28] fix: create_message_type encodes a function address as
 message type

---
 rapiddlt/src/dlt_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index b4b2549..8a3660a 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From 3d28ae2840ab575b89c8776eb2f1972781d0a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 04/28] fix: DltStorageEntry::max_len ignores the storage
 header

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 8a3660a..153cf97 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        mem::size_of::<DltStorageHeader>() + u16::MAX as usize
     }
 }
 
-- 
2.43.0


From 4fc89a1b01204301ee0aa284fe23cd58b9554298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/28] fix: contained_by misses a slice that ends at the end
 of the buffer

---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..bcee98d 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -76,7 +76,7 @@ where
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
         
-- 
2.43.0


From b84b95376e2d7afca7b1f539865212d9d5e8be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/28] fix: contained_by recursion overflows the stack and
 splits at markers across the end of a T

A chain of overlapping candidates recursed once per candidate (a 2 MB file
crashed the process), nested candidates were checked exponentially often, and
a marker whose last bytes lie behind its container counted as not contained.
---
 matchit/src/lib.rs | 61 ++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index bcee98d..0d9ccbe 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -66,45 +66,58 @@ where
         Self(Finder::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
+    /// Returns the first offset of a valid ``T`` that starts before ``offset`` and extends beyond it.
+    #[inline(always)]
+    fn first_spanning(&self, bytes: &'bytes [u8], offset: usize) -> Option<usize>
+    {
+        // go back max payload size
+        let backwards_offset = offset.saturating_sub(T::max_len());
+
+        self.0.find_iter(&bytes[backwards_offset..])
+            .map(|x| x + backwards_offset)
+            .take_while(|candidate_idx| *candidate_idx < offset)
+            .find(|candidate_idx| match T::try_read(&bytes[*candidate_idx..]) {
+                Some((_, container)) => candidate_idx + container.len() > offset,
+                None => false,
+            })
+    }
+
+    /// Searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
     /// 
     /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
     /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
     /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// For this purpose, it goes back to an offset that is not spanned by any valid ``T``
+    /// and reads the sequence of ``T`` from there. This takes neither recursion nor repeated
+    /// checks of the same containers, both of which ``bytes`` could drive to any depth.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
         if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
-        
-        // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
-        
-        let iter = self.0.find_iter(&bytes[backwards_offset..]);
-        
-        for candidate_idx in iter.map(|x| x + backwards_offset) {
+
+        let mut offset = payload.0;
+        while let Some(container_idx) = self.first_spanning(bytes, offset) {
+            offset = container_idx;
+        }
+
+        loop {
+            let candidate_idx = offset + self.0.find(&bytes[offset..])?;
             if candidate_idx >= payload.0 {
                 return None
             }
-            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
-
-                // needs to contain payload.1
-                if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
-                }
+            match T::try_read(&bytes[candidate_idx..]) {
+                Some((_, container)) => {
+                    // needs to contain payload.1
+                    if candidate_idx + container.len() >= payload.1 {
+                        return Some((candidate_idx, container))
+                    }
+                    offset = candidate_idx + container.len();
+                },
+                None => offset = candidate_idx + 1,
             }
         }
-        None
     }
 }
 
-- 
2.43.0


From 249f9e86080f95f5c6b0c6649cf6e488d81f80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 07/28] fix: partition_from drops data behind the last split

The remaining bytes were lost when the next split was out of bounds, and
everything from a T on that is larger than a partition.
---
 matchit/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 0d9ccbe..c3747d0 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -127,17 +127,23 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    let size = std::cmp::max(bytes.len() / num, 1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
-    loop {
-        // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+    while candidate.0 < bytes.len() {
+        // no split left: the remaining bytes are the last partition
+        if candidate.1 >= bytes.len() {
+            result.push(&bytes[candidate.0..]);
             break;
         }
         candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
-            Some((container ,_)) => {
+            Some((container, t)) => {
+                if container <= candidate.0 {
+                    // T exceeds the whole partition, try to split behind it
+                    candidate.1 = container + t.len();
+                    continue;
+                }
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
                 container
             },
@@ -147,11 +153,6 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
                 candidate.1
             },
         };
-        
-        // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
-        }
 
         // store result and check for the next candidate for a split
         if candidate.1 + size /4 >= bytes.len() {
-- 
2.43.0


From a33d80387db6524392c3244abc5614024023772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 08/28] fix: ReadFallbackIterator ends at the first corrupted T
 instead of searching for the next one

---
 matchit/src/searchable/readfallbackit.rs | 38 +++++++-----------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..88f4344 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,38 +45,20 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
-            return None
-        }
-        if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-            // a valid T at offset
-            match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-                Some((bytes_read, val)) => {
+        while self.offset + T::marker().len() < self.bytes.len() {
+            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+                // a valid T at offset
+                if let Some((bytes_read, val)) = T::try_read_valid_marker(&self.bytes[self.offset..]) {
                     let _off = self.offset;
                     self.offset += bytes_read;
-                    Some((_off, val))
-                },
-                None => {
-                    None
+                    return Some((_off, val))
                 }
+                // a valid marker without containing a valid result
+                self.offset += 1;
             }
-        } else {
-                // no valid T at offset, searching for a marker
-                match search_marker::<T>(&self.bytes[self.offset..]) {
-                    Some(position) => {
-                        if position == 0 {
-                            // a match with offset = 0 indicates a slice starting with a valid marker
-                            // without containing a valid result
-                            None
-                        } else {
-                            self.offset += position;
-                            self.next()
-                        }
-                    }
-                    None => {
-                        None
-                    },
-                }
+            // no valid T at offset, searching for a marker
+            self.offset += search_marker::<T>(&self.bytes[self.offset..])?;
         }
+        None
     }
 }
-- 
2.43.0


From e482934855f58b4566f903105d549cbd702dd175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/28] fix: SearchIterator overflows the stack when there is
 no further match

---
 matchit/src/searchable/searchit.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..40e1964 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,19 +51,16 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
-                }
-                self.next()
+        while self.offset < self.bytes.len() {
+            let candidate = self.offset + self.finder.find(&self.bytes[self.offset..])?;
+
+            if let Some((_, t)) = T::try_read_valid_marker(&self.bytes[candidate..]) {
+                self.offset = candidate + t.len();
+                return Some((candidate, t))
             }
+            self.offset = candidate + 1;
         }
+        None
     }
 }
 
-- 
2.43.0


From 184e2cf539994555bde0f04905fb253938ac837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 10/28] fix: RevSearchIterator overflows the stack and does not
 stay exhausted

---
 matchit/src/searchable/searchit.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index 40e1964..6d1962e 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -104,22 +104,18 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
-                }
-                self.next()
+        if self.offset == usize::MAX {
+            return None
+        }
+        self.offset = std::cmp::min(self.offset, self.bytes.len());
+        while let Some(candidate) = self.finder.rfind(&self.bytes[..self.offset]) {
+            self.offset = candidate;
+            if let Some((_, t)) = T::try_read_valid_marker(&self.bytes[candidate..]) {
+                return Some((candidate, t))
             }
         }
+        self.offset = usize::MAX;
+        None
     }
 }
 
-- 
2.43.0


From 408cdad984562e01e96812156c0dd67e61eec406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 11/28] fix: GrepIterator overflows the stack on matches
 outside of T and never ends on empty matches

---
 matchit/src/searchable/grepit.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..a2752d7 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -31,29 +31,19 @@ impl<'bytes, T> GrepIterator<'bytes, T>
     where T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
+    pub fn search(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<T>> {
+        while offset < bytes.len() {
+            let foundit = self.finder.find_at(bytes, offset)?.range();
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
+            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
+                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
+                    return Some((_off, val))
                 }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.search(bytes, foundit.end)
-            },
+            }
+            // match not included, matches may be empty
+            offset = std::cmp::max(foundit.end, foundit.start + 1);
         }
-
+        None
     }
 }
 
-- 
2.43.0


From 750945a3332e8d4bd6464038bc6a916e54639b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 12/28] fix: RegExMatcherIterator skips matches behind the
 first one

The next search started at the sum of two offsets, ended at the first match
without the capture group, and recursed like GrepIterator did.
---
 matchit/src/searchable/grepit.rs | 34 ++++++++++++--------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a2752d7..5dd83b0 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -90,31 +90,22 @@ where
     T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
+    pub fn capture(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<(usize,usize)>> {
         let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
+        while offset < bytes.len() {
+            let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
 
-        let foundit = captures.range();
+            let foundit = captures.range();
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+            if let (Some((_off, val)), Some(group)) = (self.iter.search(bytes, foundit.start), locs.get(1)) {
+                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
+                    return Some((_off, group))
                 }
-                self.capture(bytes, foundit.end)
-            },
+            }
+            // match not included or without the group, matches may be empty
+            offset = std::cmp::max(foundit.end, foundit.start + 1);
         }
+        None
     }
 }
 
@@ -130,7 +121,8 @@ where
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        let (_, entry) = T::try_read_valid_marker(&self.bytes[offset..])?;
+        self.offset = offset + entry.len();
 
         Some((offset, val))
     }
-- 
2.43.0


From eafbb3aeb9b20a9b4da7f46c10aeac1810d21614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 13/28] fix: groupby drops values after a single value that is
 not related to itself

---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From 30a3561bf43b75587471465c3be5441ea7912caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 14/28] fix: merge keeps values apart that a later value
 connects

---
 matchit/src/generator/groupby.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index 841d7e8..0dea728 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -125,22 +125,26 @@ where
 
 
     #[inline(always)]
-    fn adapt(&mut self, next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
-        let mut consumed = None;
+    fn adapt(&mut self, mut next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
+        loop {
+            let mut consumed = None;
 
-        for (_, prev) in self.2.iter() {
-            let ret = (self.0)(prev, &next);
-            if let Some(val) = ret {
-                consumed = Some((prev.clone(), val));
+            for (_, prev) in self.2.iter() {
+                let ret = (self.0)(prev, &next);
+                if let Some(val) = ret {
+                    consumed = Some((prev.clone(), val));
+                    break;
+                }
+            }
+            if let Some((prev, val)) = consumed {
+                // the merged value may in turn merge with others
+                self.2.remove(&(self.1)(&prev));
+                next = val;
+            } else {
+                self.2.insert((self.1)(&next), next);
                 break;
             }
         }
-        if let Some((prev, val)) = consumed {
-            self.2.remove(&(self.1)(&prev));
-            self.2.insert((self.1)(&val), val);
-        } else {
-            self.2.insert((self.1)(&next), next);
-        }
         ControlFlow::Continue(None)
     }
 }
-- 
2.43.0


From 023d8b442a5d2c4ae5173c6534d50e4d887c3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 15/28] fix: DltBuffer::read_file returns partial data on read
 errors

---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From bf181f5a58e7523db1298fd8d815e319ff235c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 16/28] fix: dd_dlt loses output on short and failed writes

---
 dd_dlt/src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..f4fbd40 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,15 +47,16 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 07969b523480f6ec2abef6b1e77ec8ac10f2a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 17/28] fix: dd_dlt writes invalid messages if the payload size
 exceeds the length field

---
 dd_dlt/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index f4fbd40..cc0eb13 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -21,6 +21,11 @@ fn main() -> Result<(), std::io::Error> {
         Err(_) => panic!("wrong parameter"),
     };
 
+    // the length field of a DLT message also counts its headers
+    if payload_size > u16::MAX - (4 + 10 + 4) {
+        panic!("payload size too large");
+    }
+
     let mut buf = vec![0u8; payload_size as usize];
     let mut count = 0;
 
-- 
2.43.0


From 79142c2adc7d8deda298df61e281f2650d3f2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 18/28] fix: ripdlt panics on messages shorter than their
 header flags claim

---
 ripdlt/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..8325c4d 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| a.dlt.payload().is_some_and(|p| finder.find_iter(p).next().is_some());
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From ac8ac2d4030714ef5d689972f22af6a18b738c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 19/28] fix: ripdlt panics on ECU ids that are not valid UTF-8

---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 8325c4d..952ed52 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From 6003ccc170b1ed1be9979b1d685b0614f0905abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 20/28] fix: dd_dlt takes read errors for the end of its input

---
 dd_dlt/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index cc0eb13..498bb97 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -32,7 +32,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(err) if err.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(err) => return Err(err),
         };
 
         // DltStorageHeader
-- 
2.43.0


From 93f88e9946225a594656103df59453fbccc3f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 21/28] fix: pattern search misses messages when a match
 extends beyond its message

A greedy pattern such as 'H.* World' may match from one message into a
later one. Such a match was dropped together with everything up to its end,
including the shorter matches inside of these messages.
---
 matchit/src/searchable/grepit.rs | 63 +++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 5dd83b0..805639b 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,7 +3,16 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
+
+/// Returns the end of the first marker that ends behind ``offset``:
+/// no match that is included in a further ``T`` starts before it.
+fn behind_next_marker<'bytes, T>(bytes: &'bytes [u8], offset: usize) -> Option<usize>
+    where T: SearchableMarkerTrait<'bytes>
+{
+    let from = (offset + 1).saturating_sub(T::marker().len());
+    Some(from + search_marker::<T>(&bytes[from..])? + T::marker().len())
+}
 
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
@@ -35,13 +44,18 @@ impl<'bytes, T> GrepIterator<'bytes, T>
         while offset < bytes.len() {
             let foundit = self.finder.find_at(bytes, offset)?.range();
 
-            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
-                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
-                    return Some((_off, val))
-                }
-            }
-            // match not included, matches may be empty
-            offset = std::cmp::max(foundit.end, foundit.start + 1);
+            offset = match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    // a match that extends beyond T may hide one that does not
+                    let end = _off + val.len();
+                    if foundit.end <= end || self.finder.is_match_at(&bytes[..end], foundit.start) {
+                        return Some((_off, val))
+                    }
+                    end
+                },
+                // match not included
+                _ => behind_next_marker::<T>(bytes, foundit.start)?,
+            };
         }
         None
     }
@@ -91,18 +105,33 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        let mut locs = self.finder.capture_locations();
         while offset < bytes.len() {
-            let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-            let foundit = captures.range();
+            let start = self.finder.find_at(bytes, offset)?.start();
+
+            offset = match self.iter.search(bytes, start) {
+                Some((_off, val)) if start < _off + val.len() => {
+                    let end = _off + val.len();
+                    if let Some(group) = self.first_group(&bytes[..end], start) {
+                        return Some((_off, group))
+                    }
+                    end
+                },
+                // match not included
+                _ => behind_next_marker::<T>(bytes, start)?,
+            };
+        }
+        None
+    }
 
-            if let (Some((_off, val)), Some(group)) = (self.iter.search(bytes, foundit.start), locs.get(1)) {
-                if foundit.start < _off + val.len() && foundit.end <= _off + val.len() {
-                    return Some((_off, group))
-                }
+    /// Returns the group of the first match from ``offset`` that has the group.
+    fn first_group(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<(usize,usize)> {
+        let mut locs = self.finder.capture_locations();
+        while offset < bytes.len() {
+            let foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
+            if let Some(group) = locs.get(1) {
+                return Some(group)
             }
-            // match not included or without the group, matches may be empty
+            // match without the group, matches may be empty
             offset = std::cmp::max(foundit.end, foundit.start + 1);
         }
         None
-- 
2.43.0


From 73c0bf4838180ca07f498ac2310e696d06c5c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 22/28] fix: ReadFallbackIterator panics on start offsets near
 usize::MAX

---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 88f4344..bbb4896 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset + T::marker().len() < self.bytes.len() {
+        while self.offset < self.bytes.len().saturating_sub(T::marker().len()) {
             if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
                 // a valid T at offset
                 if let Some((bytes_read, val)) = T::try_read_valid_marker(&self.bytes[self.offset..]) {
-- 
2.43.0


From 0dde22bbed0f9bb7c8eec0e7362c51fa3dc6076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 23/28] fix: RevSearchIterator yields nothing from start offset
 usize::MAX

---
 matchit/src/searchable/searchit.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index 6d1962e..e8784f4 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -104,9 +104,6 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset == usize::MAX {
-            return None
-        }
         self.offset = std::cmp::min(self.offset, self.bytes.len());
         while let Some(candidate) = self.finder.rfind(&self.bytes[..self.offset]) {
             self.offset = candidate;
@@ -114,7 +111,8 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
                 return Some((candidate, t))
             }
         }
-        self.offset = usize::MAX;
+        // nothing is left before the start
+        self.offset = 0;
         None
     }
 }
-- 
2.43.0


From a762401bcad066e17b58466e292ba0ff2f4f9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 24/28] fix: dd_dlt panics on overflow after 42.9 million
 messages in builds with overflow checks

---
 dd_dlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 498bb97..9c980d1 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -27,7 +27,7 @@ fn main() -> Result<(), std::io::Error> {
     }
 
     let mut buf = vec![0u8; payload_size as usize];
-    let mut count = 0;
+    let mut count = 0u64;
 
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
@@ -39,7 +39,7 @@ fn main() -> Result<(), std::io::Error> {
         // DltStorageHeader
         let sh = DltStorageHeader::new(
             [b'D',b'L',b'T', 0x1],
-            count / 100,
+            (count / 100) as u32,
             (count % 100) as i32 * 10000,
             ecuid.try_into().expect("ecuid wrong"));
 
@@ -56,7 +56,7 @@ fn main() -> Result<(), std::io::Error> {
         io::stdout().write_all(sh.as_bytes())?;
         io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(U32::from((count * 100) as u32).as_bytes())?;
         io::stdout().write_all(eh.as_bytes())?;
         io::stdout().write_all(buf.as_bytes())?;
 
-- 
2.43.0


From 29e58c887690b51ace0fe6236613bfc29f0217c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 25/28] fix: pattern search takes quadratic time on matches
 that extend over many messages

---
 matchit/src/searchable/grepit.rs | 84 ++++++++++++++++----------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 805639b..4ea8793 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,15 +3,44 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{searchit::{RevSearchIterator, SearchIterator}, SearchableMarkerTrait};
 
-/// Returns the end of the first marker that ends behind ``offset``:
-/// no match that is included in a further ``T`` starts before it.
-fn behind_next_marker<'bytes, T>(bytes: &'bytes [u8], offset: usize) -> Option<usize>
+/// Returns the first ``T`` from ``offset`` for which ``included`` returns something,
+/// called with the bytes up to the end of ``T`` and the offset to start from.
+fn search_included<'bytes, T, R>(
+    finder: &Regex, iter: &RevSearchIterator<'bytes, T>, bytes: &'bytes [u8], mut offset: usize,
+    included: impl Fn(&'bytes [u8], usize) -> Option<R>) -> Option<(usize, T, R)>
     where T: SearchableMarkerTrait<'bytes>
 {
-    let from = (offset + 1).saturating_sub(T::marker().len());
-    Some(from + search_marker::<T>(&bytes[from..])? + T::marker().len())
+    // end of the last match found
+    let mut covered = 0;
+
+    while offset < bytes.len() {
+        let (_off, val) = if offset < covered {
+            // the match extends over more than one T,
+            // finding it again for each of them takes quadratic time
+            SearchIterator::<T>::new(bytes, offset).next()?
+        } else {
+            covered = finder.shortest_match_at(bytes, offset)?;
+            let start = finder.find_at(&bytes[..covered], offset).map_or(covered, |found| found.start());
+
+            match iter.search(bytes, start) {
+                Some((_off, val)) if start < _off + val.len() => (_off, val),
+                // match not included: none that is included in a further T
+                // starts before the end of its marker
+                _ => SearchIterator::<T>::new(bytes, (start + 1).saturating_sub(T::marker().len())).next()?,
+            }
+        };
+
+        // a match that extends beyond T may hide one that does not
+        let end = _off + val.len();
+        let from = std::cmp::max(offset, _off + T::marker().len());
+        if let Some(found) = included(&bytes[..end], from) {
+            return Some((_off, val, found))
+        }
+        offset = end;
+    }
+    None
 }
 
 #[derive(Debug)]
@@ -40,24 +69,10 @@ impl<'bytes, T> GrepIterator<'bytes, T>
     where T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn search(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<T>> {
-        while offset < bytes.len() {
-            let foundit = self.finder.find_at(bytes, offset)?.range();
-
-            offset = match self.iter.search(bytes, foundit.start) {
-                Some((_off, val)) if foundit.start < _off + val.len() => {
-                    // a match that extends beyond T may hide one that does not
-                    let end = _off + val.len();
-                    if foundit.end <= end || self.finder.is_match_at(&bytes[..end], foundit.start) {
-                        return Some((_off, val))
-                    }
-                    end
-                },
-                // match not included
-                _ => behind_next_marker::<T>(bytes, foundit.start)?,
-            };
-        }
-        None
+    pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
+        let (_off, val, _) = search_included(&self.finder, &self.iter, bytes, offset,
+            |bytes, from| self.finder.is_match_at(bytes, from).then_some(()))?;
+        Some((_off, val))
     }
 }
 
@@ -104,23 +119,10 @@ where
     T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn capture(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        while offset < bytes.len() {
-            let start = self.finder.find_at(bytes, offset)?.start();
-
-            offset = match self.iter.search(bytes, start) {
-                Some((_off, val)) if start < _off + val.len() => {
-                    let end = _off + val.len();
-                    if let Some(group) = self.first_group(&bytes[..end], start) {
-                        return Some((_off, group))
-                    }
-                    end
-                },
-                // match not included
-                _ => behind_next_marker::<T>(bytes, start)?,
-            };
-        }
-        None
+    pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
+        let (_off, _, group) = search_included(&self.finder, &self.iter, bytes, offset,
+            |bytes, from| self.first_group(bytes, from))?;
+        Some((_off, group))
     }
 
     /// Returns the group of the first match from ``offset`` that has the group.
-- 
2.43.0


From 302f555265d96c56dc49845b9aeeb2247bb6bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 26/28] fix: containment search takes quadratic time on chains
 of overlapping entries

---
 matchit/src/lib.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index c3747d0..f6fbfcb 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,7 +6,7 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
+use memchr::memmem::{Finder, FinderRev};
 use searchable::SearchableMarkerTrait;
 
 pub type WithOffset<T> = (usize, T);
@@ -66,20 +66,27 @@ where
         Self(Finder::new(T::marker()), PhantomData)
     }
 
-    /// Returns the first offset of a valid ``T`` that starts before ``offset`` and extends beyond it.
+    /// Returns the last offset up to ``offset`` that is not spanned by any valid ``T``.
     #[inline(always)]
-    fn first_spanning(&self, bytes: &'bytes [u8], offset: usize) -> Option<usize>
+    fn last_unspanned(&self, bytes: &'bytes [u8], mut offset: usize) -> usize
     {
-        // go back max payload size
-        let backwards_offset = offset.saturating_sub(T::max_len());
-
-        self.0.find_iter(&bytes[backwards_offset..])
-            .map(|x| x + backwards_offset)
-            .take_while(|candidate_idx| *candidate_idx < offset)
-            .find(|candidate_idx| match T::try_read(&bytes[*candidate_idx..]) {
-                Some((_, container)) => candidate_idx + container.len() > offset,
-                None => false,
-            })
+        let finder = FinderRev::new(T::marker());
+        let mut candidate_idx = offset;
+        loop {
+            // go back max payload size
+            let backwards_offset = offset.saturating_sub(T::max_len());
+            let end = std::cmp::min(candidate_idx + T::marker().len() - 1, bytes.len());
+
+            candidate_idx = match finder.rfind(&bytes[backwards_offset..end]) {
+                Some(x) => x + backwards_offset,
+                None => return offset,
+            };
+            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
+                if candidate_idx + container.len() > offset {
+                    offset = candidate_idx;
+                }
+            }
+        }
     }
 
     /// Searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
@@ -97,10 +104,7 @@ where
             return None
         }
 
-        let mut offset = payload.0;
-        while let Some(container_idx) = self.first_spanning(bytes, offset) {
-            offset = container_idx;
-        }
+        let mut offset = self.last_unspanned(bytes, payload.0);
 
         loop {
             let candidate_idx = offset + self.0.find(&bytes[offset..])?;
-- 
2.43.0


From 729a452831dd86f60e57cca5c6184f6b89831888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:40 +0000
Subject: [PATCH 27/28] fix: reverse search misses markers that overlap with
 one found

---
 matchit/src/searchable/searchit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e8784f4..9384755 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -106,7 +106,8 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
     fn next(&mut self) -> Option<Self::Item> {
         self.offset = std::cmp::min(self.offset, self.bytes.len());
         while let Some(candidate) = self.finder.rfind(&self.bytes[..self.offset]) {
-            self.offset = candidate;
+            // markers may overlap: the next one may end within this one
+            self.offset = (candidate + T::marker().len()).saturating_sub(1);
             if let Some((_, t)) = T::try_read_valid_marker(&self.bytes[candidate..]) {
                 return Some((candidate, t))
             }
-- 
2.43.0


From 554a3ad6b00a1468e0ac99e47532c95102b57bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:27 +0000
Subject: [PATCH 28/28] fix: sequential reading misses a last entry that is all
 marker

---
 matchit/src/searchable/readfallbackit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index bbb4896..8d815ee 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,8 +45,8 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset < self.bytes.len().saturating_sub(T::marker().len()) {
-            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+        while self.offset < self.bytes.len() {
+            if self.bytes[self.offset..].starts_with(T::marker()) {
                 // a valid T at offset
                 if let Some((bytes_read, val)) = T::try_read_valid_marker(&self.bytes[self.offset..]) {
                     let _off = self.offset;
-- 
2.43.0


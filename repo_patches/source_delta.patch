From ce6139619338f877c99307db6bbbe95c8d1f00b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 01/16] fix: message info byte: mask all four bits of the
 message type info, encode the message type

The mask 0x15 << 4 dropped the bit of value 2, so that e.g. DltLogDltError was never decoded and
DltLogWarn was read as DltLogFatal. create_message_type cast the variant's constructor (a function
address) to u8 where the message type's number belongs.
---
 rapiddlt/src/dlt_v1.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..c914041 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0x0f << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From be6c6c652dcff8b9cb1715fcc94172a16e97c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 02/16] fix: accessors of truncated entries return None instead
 of panicking

ecu_id(), extended_header() and payload() sliced beyond the end of an entry whose length leaves no
room for the optional header fields its header type announces.
---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index c914041..88711bb 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From 5e8d9f04697e4acdd6e5f57b877bd0545c1e22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 03/16] fix: DltStorageEntry::max_len() counts the storage
 header

The length field covers up to 65535 bytes without the storage header, which len() includes.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 88711bb..fd1c1d0 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + mem::size_of::<DltStorageHeader>()
     }
 }
 
-- 
2.43.0


From c9bd3bfe15aef7ba213c2793a26ea354a1448c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 04/16] fix: RevSearchIterator stays exhausted

After the end, next() counted the offset down from usize::MAX in steps of the marker's length.
---
 matchit/src/searchable/searchit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..404572c 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -107,6 +107,9 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.offset == usize::MAX {
+            return None // exhausted
+        }
         match self.search(self.bytes, self.offset) {
             Some((offset, t)) => {
                 self.offset = offset;
-- 
2.43.0


From 0afc4d87d3bcf82a34fcd1c0abff50445db24932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 05/16] fix: contained_by() finds the container of a payload
 that ends with the buffer

---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..bcee98d 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -76,7 +76,7 @@ where
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
         
-- 
2.43.0


From 33025a97d12814f85e0142a346725056f63e80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 06/16] fix: partition_from() covers the whole slice in
 non-empty partitions

---
 matchit/src/lib.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index bcee98d..8dbfd75 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -114,18 +114,16 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    let size = (bytes.len() / num).max(1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
-    loop {
-        // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
-            break;
-        }
+    while candidate.0 < bytes.len() {
+        let mut behind = candidate.1;
         candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
-            Some((container ,_)) => {
+            Some((container, t)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
+                behind = container + t.len();
                 container
             },
             None => {
@@ -134,16 +132,14 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
                 candidate.1
             },
         };
-        
-        // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
-        }
 
         // store result and check for the next candidate for a split
         if candidate.1 + size /4 >= bytes.len() {
             result.push(&bytes[candidate.0..]);
-            break;                
+            break;
+        } else if candidate.0 >= candidate.1 {
+            // the container starts with this partition: split behind it
+            candidate.1 = behind;
         } else {
             result.push(&bytes[candidate.0..candidate.1]);
             candidate = (candidate.1, candidate.1 + size);    
-- 
2.43.0


From a93566edd2ba4b26a518e715d7fabee6f8595f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 07/16] fix: pattern iterators stop on empty matches, visit
 every message once and use no recursion

---
 matchit/src/searchable/grepit.rs | 74 ++++++++++++++------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..23b8a7d 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -32,28 +32,20 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+        let mut offset = offset;
+        while offset < bytes.len() {
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
+                let end = _off + val.len();
+                if foundit.start < end && foundit.end <= end {
+                    return Some((_off, val))
                 }
-                self.search(bytes, foundit.end)
-            },
+            }
+            // match not included, an empty match must not be found again
+            offset = foundit.end.max(foundit.start + 1);
         }
-
+        None
     }
 }
 
@@ -101,30 +93,28 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
+        let (captured, _) = self.capture_with_end(bytes, offset)?;
+        Some(captured)
+    }
 
-        let foundit = captures.range();
+    /// Like ``capture``, but returns the end of the containing ``T`` as well.
+    #[inline(always)]
+    fn capture_with_end(&self, bytes: &'bytes [u8], offset: usize) -> Option<(WithOffset<(usize,usize)>, usize)> {
+        let mut offset = offset;
+        let mut locs = self.finder.capture_locations();
+        while offset < bytes.len() {
+            let foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+            if let (Some((_off, val)), Some(group)) = (self.iter.search(bytes, foundit.start), locs.get(1)) {
+                let end = _off + val.len();
+                if foundit.start < end && foundit.end <= end {
+                    return Some(((_off, group), end))
                 }
-                self.capture(bytes, foundit.end)
-            },
+            }
+            // match not included, an empty match must not be found again
+            offset = foundit.end.max(foundit.start + 1);
         }
+        None
     }
 }
 
@@ -136,11 +126,11 @@ where
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        let (offset, val) = self.capture(self.bytes, self.offset)?;
+        let ((offset, val), end) = self.capture_with_end(self.bytes, self.offset)?;
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        self.offset = end;
 
         Some((offset, val))
     }
-- 
2.43.0


From 838a8568d557479492397b69a10df024d1e16ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 08/16] fix: GroupBy starts over behind an item that is not
 related to itself

---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From d3183a75a49d695041ba3decd0762f97ad799b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 09/16] fix: dd_dlt writes messages completely and reports
 failed writes

write() may take only a part of the bytes, e.g. of a payload with a line
end in front of more bytes than the buffer of stdout has room for.
---
 dd_dlt/src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..f4fbd40 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,15 +47,16 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From ea08202bc9aa6de9ec34e73ae02a8aea84c0e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 10/16] fix: dd_dlt reports failed reads instead of ending as
 if the input did

---
 dd_dlt/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index f4fbd40..afc8fb6 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -27,7 +27,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(e) => return Err(e),
         };
 
         // DltStorageHeader
-- 
2.43.0


From 8557255842be9117e52aa8959e3fe5147872d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 11/16] fix: dd_dlt refuses payload sizes that fit no message

0 never ended, more than 65517 overflowed the length of the message.
---
 dd_dlt/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index afc8fb6..846aecf 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -21,6 +21,11 @@ fn main() -> Result<(), std::io::Error> {
         Err(_) => panic!("wrong parameter"),
     };
 
+    // the length of a message is a u16 and counts the headers of 4 + 10 + 4 bytes
+    if payload_size == 0 || payload_size > u16::MAX - 18 {
+        return Err(io::Error::new(io::ErrorKind::InvalidInput, "payload_size needs to be in 1..=65517"));
+    }
+
     let mut buf = vec![0u8; payload_size as usize];
     let mut count = 0;
 
-- 
2.43.0


From c0536eb94c9e5d44a90ab2d9d54941cb2af24d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 12/16] fix: DltBuffer::read_file() reports read errors instead
 of returning a shortened buffer

---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 7fb4a6ba12e1f6ccfa3ec91dd2add0756a5c0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 13/16] fix: ripdlt does not panic on messages too short for
 the fields their header announces

---
 ripdlt/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..35ee379 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().unwrap_or(&[])).next().is_some();
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From 867678a0e17c089d7e0dc96d2395b69d4c9357f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 14/16] fix: ripdlt does not panic on ECU ids that are not
 UTF-8

---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 35ee379..669ed6a 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From d17cc61a9c1e34402b39b28e249b5f0c7faf69fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 15/16] fix: the searching iterators do not recurse over bytes
 that begin no message

SearchIterator and RevSearchIterator called next() again for every few bytes
without a message; some 100 kB of them overflowed the stack.
---
 matchit/src/searchable/searchit.rs | 48 ++++++++++++++++--------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index 404572c..ebc43c3 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,17 +51,18 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+        loop {
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset + t.len();
+                    return Some((offset, t))
+                }
+                None => {
+                    self.offset += T::marker().len();
+                    if self.offset >= self.bytes.len() {
+                        return None
+                    }
                 }
-                self.next()
             }
         }
     }
@@ -110,20 +111,21 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
         if self.offset == usize::MAX {
             return None // exhausted
         }
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
+        loop {
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset;
+                    return Some((self.offset, t))
+                }
+                None => {
+                    match self.offset.checked_sub(T::marker().len()) {
+                        Some(sub) => self.offset = sub,
+                        None => self.offset = usize::MAX,
+                    };
+                    if self.offset == usize::MAX {
+                        return None
+                    }
                 }
-                self.next()
             }
         }
     }
-- 
2.43.0


From 4fd4b82fbba39524e98698f54d555dedd24363a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:05 +0000
Subject: [PATCH 16/16] fix: the searching iterators scan bytes without
 messages once, not once per four of them

---
 matchit/src/searchable/searchit.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index ebc43c3..a8459a0 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -58,10 +58,9 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
                     return Some((offset, t))
                 }
                 None => {
-                    self.offset += T::marker().len();
-                    if self.offset >= self.bytes.len() {
-                        return None
-                    }
+                    // go on behind the marker that begins no valid T
+                    let candidate = self.finder.find(self.bytes.get(self.offset..)?)?;
+                    self.offset += candidate + 1;
                 }
             }
         }
@@ -118,13 +117,15 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
                     return Some((self.offset, t))
                 }
                 None => {
-                    match self.offset.checked_sub(T::marker().len()) {
-                        Some(sub) => self.offset = sub,
-                        None => self.offset = usize::MAX,
+                    // go on in front of the end of the marker that begins no valid T
+                    let behind = self.offset.min(self.bytes.len());
+                    match self.finder.rfind(&self.bytes[..behind]) {
+                        Some(candidate) => self.offset = candidate + T::marker().len() - 1,
+                        None => {
+                            self.offset = usize::MAX;
+                            return None
+                        }
                     };
-                    if self.offset == usize::MAX {
-                        return None
-                    }
                 }
             }
         }
-- 
2.43.0


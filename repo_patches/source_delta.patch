From 75e2487bbcd449342eee8be7b28e4ba47a8546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 01/47] fix: raw value access in util must not assume an
 aligned buffer

---
 src/core/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..0d2c0d2 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -158,8 +158,9 @@ pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {
 
     unsafe {
         let pointer: *mut T =
-            mem::transmute(buffer[offset..].as_ptr());
-        *pointer = value
+            mem::transmute(buffer[offset..].as_mut_ptr());
+        // the buffer may start at any address, so the access may be misaligned
+        pointer.write_unaligned(value)
     }
 }
 
@@ -169,6 +170,7 @@ pub fn get_value<T: Copy>(buffer: &[u8], offset: usize) -> T {
     unsafe {
         let pointer: *const T =
             mem::transmute(buffer[offset..].as_ptr());
-        *pointer
+        // the buffer may start at any address, so the access may be misaligned
+        pointer.read_unaligned()
     }
 }
\ No newline at end of file
-- 
2.43.0


From 02517797152cadd0b83c000d1054f3763e33d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 02/47] fix: refuse an empty row when a page has no space for
 its offset entry

---
 src/core/nsm.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..7d6555f 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -74,6 +74,7 @@ impl PageFormat {
 
     pub fn append_row(&self, page: &mut [u8], row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_slot(page));
         let num_rows = self.num_rows(page);
         let aligned_len = util::align(row.len(), self.row_alignment);
         let upper_bound = if num_rows > 0 {
@@ -97,6 +98,7 @@ impl PageFormat {
 
     pub fn insert_row(&self, page: &mut [u8], index: usize, row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_slot(page));
         let num_rows = self.num_rows(page);
 
         if index == num_rows {
@@ -186,6 +188,19 @@ impl PageFormat {
         }
     }
 
+    // Is there space for the offset entry of one more row? This is not implied by the row
+    // size check when the row is empty.
+    fn has_free_slot(&self, page: &[u8]) -> bool {
+        let num_rows = self.num_rows(page);
+        let upper_bound = if num_rows > 0 {
+            self.aligned_row_offset(page, num_rows - 1)
+        } else {
+            page.len()
+        };
+
+        mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound
+    }
+
     fn aligned_row_offset(&self, page: &[u8], index: usize) -> usize {
         assert!(index < self.num_rows(page));
         let offset_value = self.get_row_offset(page, index);
-- 
2.43.0


From 76974518e7bdcf2836e59728f3e32873f47f22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 03/47] Verification hooks (guarded by cfg cathlamet_verif)

---
 src/sql/ast/typing.rs | 7 +++++++
 src/sql/mod.rs        | 7 +++++++
 src/storage/mod.rs    | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..9fe4b72 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1618,3 +1618,10 @@ impl CommonTableExpression {
         }
     }
 }
+
+// Verification hook: gives the checks in the directory named by CATHLAMET_VERIF_HOOKS access to
+// the private items of this module. Compiled only with --cfg cathlamet_verif.
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    include!(concat!(env!("CATHLAMET_VERIF_HOOKS"), "/typing.rs"));
+}
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..99d3cf9 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -84,3 +84,10 @@ impl<'a> From<&'a str> for Error {
         }
     }
 }
+
+// Verification hook: gives the checks in the directory named by CATHLAMET_VERIF_HOOKS access to
+// the private items of this module. Compiled only with --cfg cathlamet_verif.
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    include!(concat!(env!("CATHLAMET_VERIF_HOOKS"), "/sql.rs"));
+}
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..3e32764 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1284,3 +1284,9 @@ impl <'a> Drop for ReadWriteBufferHandle<'a> {
     }
 }
 
+// Verification hook: gives the checks in the directory named by CATHLAMET_VERIF_HOOKS access to
+// the private items of this module. Compiled only with --cfg cathlamet_verif.
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    include!(concat!(env!("CATHLAMET_VERIF_HOOKS"), "/storage.rs"));
+}
-- 
2.43.0


From 2a776d896263cd25363def23ab43510d0ca5c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 04/47] fix: default volume parameters used twice the default
 block size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 3e32764..25a45b1 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -200,7 +200,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = (DEFAULT_VOLUME_BLOCK_SIZE as u32).trailing_zeros() as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From 1abd4b861d0c87aa598dff71ea4fb8d42eb3a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 05/47] fix: report exhausted volume identifiers instead of
 overflowing

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 25a45b1..ba6c332 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -380,13 +380,13 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
 
-        if next < current.0 {
-            Err("Cannot allocate more internal volume identifiers".into())
-        } else {
-            self.next_volume = VolumeIndex(next);
-            Ok(current)
+        match current.0.checked_add(1) {
+            None => Err("Cannot allocate more internal volume identifiers".into()),
+            Some(next) => {
+                self.next_volume = VolumeIndex(next);
+                Ok(current)
+            }
         }
     }
 
-- 
2.43.0


From 4c3beb93ba27f5fe62f563d7d981d31c32b0e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 06/47] fix: creating a buffer pool underflowed on the first
 buffer

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index ba6c332..d2bd8ef 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -812,7 +812,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = index.wrapping_sub(1) as BufferIndex;
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From 9e778bb05096420c8b8b02ede4a59c7f8b7d2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 07/47] fix: a buffer being accessed was queued as available
 again

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d2bd8ef..d7a5d8d 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -942,7 +942,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From 3b752d7024ef72a8e130ee3c4d03fd7cbe43f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 08/47] fix: a reused buffer stayed mapped to its previous
 location

---
 src/storage/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d7a5d8d..04a8907 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -945,6 +945,14 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer no longer holds the location it was used for before
+                        let buffer = &mut buffers[index as usize];
+                        if buffer.mapped {
+                            internal.mapped_locations.remove(&buffer.location);
+                        }
+                        buffer.location = location;
+                        buffer.mapped = true;
+
                         internal.mapped_locations.insert(location, index as usize);
 
                         assert!(buffers[index as usize].access.is_none());
-- 
2.43.0


From 95d1f44ee77c49c80ea0b1b633f9fb31444aa774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 09/47] fix: accessing an idle mapped buffer left it in the
 idle queue

---
 src/storage/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 04a8907..e778789 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -981,6 +981,15 @@ impl BufferPool {
                 Some(&index) => {
                     match &mut internal.buffers[index as usize].access {
                         &mut None => {
+                            // the buffer is queued as idle, which is no longer true
+                            let buffers = &mut internal.buffers;
+                            if buffers[index].dirty {
+                                internal.dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                internal.available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
                             let read_write_locks = &mut internal.read_write_locks;
                             let lock = BufferPoolMapping::alloc_lock(read_write_locks);
                             let lock_ptr = (&*lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From 6475c5915ae6d26f8de50633721cbd0614995501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 10/47] fix: align overflowed for values whose aligned value is
 representable

---
 src/core/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0d2c0d2..fc619e0 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -81,7 +81,7 @@ pub type Result<T> = result::Result<T, Error>;
 /// Helper function to calculate alignments
 pub fn align(value: usize, alignment: usize) -> usize {
     assert!(alignment.is_power_of_two());
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 #[test]
-- 
2.43.0


From 5467858434aa9bca82950adb8af5eb9f1cd8c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 11/47] fix: storage alignment helpers overflowed for
 representable results

---
 src/storage/utils.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 4911859..01f794e 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -21,29 +21,29 @@
 // SOFTWARE.
 
 pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
-    (file_size + block_size - 1) / block_size
+    (file_size + (block_size - 1)) / block_size
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u8(value: u8, alignment: u8) -> u8 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u16(value: u16, alignment: u16) -> u16 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u32(value: u32, alignment: u32) -> u32 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u128(value: u128, alignment: u128) -> u128 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
\ No newline at end of file
-- 
2.43.0


From 060f06511126f8c81d62c3c553b35bba7428276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 12/47] fix: accessing a location held by an idle buffer
 fetched it again, losing changes

---
 src/storage/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index e778789..cd337a5 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -999,12 +999,10 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer still holds the content of this location, so that there
+                            // is nothing to initialize or to fetch
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From fc7fe0e77c9014e6ab962b222190050862f62fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 13/47] fix: marshaller accesses must be bounded by the buffer
 and not assume it is aligned

---
 src/core/marshaller.rs | 299 +++++++++++++++++------------------------
 1 file changed, 127 insertions(+), 172 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..6cdf606 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -23,7 +23,6 @@
 use std::cmp;
 use std::collections;
 use std::mem;
-use std::slice;
 use std::sync;
 use std::u32;
 
@@ -416,11 +415,7 @@ impl Layout {
             match var_size_field.kind {
                 VariableSizeFieldKind::String => {
                     // extract the length
-                    let length = unsafe {
-                        let pointer: *const LengthEncodingType =
-                            mem::transmute(data[tag_field.offset..].as_ptr());
-                        *pointer
-                    };
+                    let length = util::get_value::<LengthEncodingType>(data, tag_field.offset);
 
                     // add to the offset
                     offset = offset + length as usize as usize;
@@ -435,31 +430,21 @@ impl Layout {
                                 num_bits,
                             } => {
                                 let case_value = match primitive {
-                                    types::Primitive::U128 => unsafe {
-                                        let pointer: *const u128 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U64 => unsafe {
-                                        let pointer: *const u64 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U32 => unsafe {
-                                        let pointer: *const u32 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U16 => unsafe {
-                                        let pointer: *const u16 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U8 => unsafe {
-                                        let pointer: *const u8 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
+                                    types::Primitive::U128 => {
+                                        util::get_value::<u128>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U64 => {
+                                        util::get_value::<u64>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U32 => {
+                                        util::get_value::<u32>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U16 => {
+                                        util::get_value::<u16>(data, tag_field.offset) as usize
+                                    }
+                                    types::Primitive::U8 => {
+                                        util::get_value::<u8>(data, tag_field.offset) as usize
+                                    }
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
@@ -531,11 +516,7 @@ impl Layout {
                     assert!(mem::size_of::<u32>() == mem::size_of::<LengthEncodingType>());
                     assert!(length <= u32::MAX as usize);
 
-                    unsafe {
-                        let pointer: *mut LengthEncodingType =
-                            mem::transmute(buffer[field.offset..].as_ptr());
-                        *pointer = length as LengthEncodingType;
-                    }
+                    util::set_value(buffer, field.offset, length as LengthEncodingType);
                 }
                 FixedSizeFieldKind::Bitfield {
                     primitive,
@@ -545,101 +526,97 @@ impl Layout {
                     let case_tag = source.get_case_tag(&field.path);
 
                     match primitive {
-                        types::Primitive::U8 => unsafe {
+                        types::Primitive::U8 => {
                             let mask = ((1u8 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
-                        },
-                        types::Primitive::U16 => unsafe {
+                            let old: u8 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (old & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U16 => {
                             let mask = ((1u16 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
-                        },
-                        types::Primitive::U32 => unsafe {
+                            let old: u16 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (old & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U32 => {
                             let mask = ((1u32 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
-                        },
-                        types::Primitive::U64 => unsafe {
+                            let old: u32 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (old & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U64 => {
                             let mask = ((1u64 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
-                        },
-                        types::Primitive::U128 => unsafe {
+                            let old: u64 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (old & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U128 => {
                             let mask = ((1u128 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u128 =
-                                mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
-                        },
+                            let old: u128 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (old & !mask) | (((case_tag as u128) << bit_offset) & mask),
+                            );
+                        }
                         _ => panic!("Invalid bitfield primitive type"),
                     }
                 }
                 FixedSizeFieldKind::Primitve(primitive) => match primitive {
-                    types::Primitive::Bool => unsafe {
-                        *mem::transmute::<*mut u8, *mut bool>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_bool(&field.path);
-                    },
-                    types::Primitive::Char => unsafe {
-                        *mem::transmute::<*mut u8, *mut char>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_char(&field.path);
-                    },
-                    types::Primitive::F32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f32(&field.path);
-                    },
-                    types::Primitive::F64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f64(&field.path);
-                    },
-                    types::Primitive::U8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u8(&field.path);
-                    },
-                    types::Primitive::U16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u16(&field.path);
-                    },
-                    types::Primitive::U32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u32(&field.path);
-                    },
-                    types::Primitive::U64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u64(&field.path);
-                    },
-                    types::Primitive::U128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_u128(&field.path);
-                    },
-                    types::Primitive::I8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i8(&field.path);
-                    },
-                    types::Primitive::I16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i16(&field.path);
-                    },
-                    types::Primitive::I32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i32(&field.path);
-                    },
-                    types::Primitive::I64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i64(&field.path);
-                    },
-                    types::Primitive::I128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_i128(&field.path);
-                    },
+                    types::Primitive::Bool => {
+                        util::set_value(buffer, field.offset, source.get_bool(&field.path))
+                    }
+                    types::Primitive::Char => {
+                        util::set_value(buffer, field.offset, source.get_char(&field.path))
+                    }
+                    types::Primitive::F32 => {
+                        util::set_value(buffer, field.offset, source.get_f32(&field.path))
+                    }
+                    types::Primitive::F64 => {
+                        util::set_value(buffer, field.offset, source.get_f64(&field.path))
+                    }
+                    types::Primitive::U8 => {
+                        util::set_value(buffer, field.offset, source.get_u8(&field.path))
+                    }
+                    types::Primitive::U16 => {
+                        util::set_value(buffer, field.offset, source.get_u16(&field.path))
+                    }
+                    types::Primitive::U32 => {
+                        util::set_value(buffer, field.offset, source.get_u32(&field.path))
+                    }
+                    types::Primitive::U64 => {
+                        util::set_value(buffer, field.offset, source.get_u64(&field.path))
+                    }
+                    types::Primitive::U128 => {
+                        util::set_value(buffer, field.offset, source.get_u128(&field.path))
+                    }
+                    types::Primitive::I8 => {
+                        util::set_value(buffer, field.offset, source.get_i8(&field.path))
+                    }
+                    types::Primitive::I16 => {
+                        util::set_value(buffer, field.offset, source.get_i16(&field.path))
+                    }
+                    types::Primitive::I32 => {
+                        util::set_value(buffer, field.offset, source.get_i32(&field.path))
+                    }
+                    types::Primitive::I64 => {
+                        util::set_value(buffer, field.offset, source.get_i64(&field.path))
+                    }
+                    types::Primitive::I128 => {
+                        util::set_value(buffer, field.offset, source.get_i128(&field.path))
+                    }
                 },
                 _ => panic!("Invalid field type"),
             }
@@ -670,13 +647,9 @@ fn copy_bytes<D>(buffer: &mut [u8], path: &Path, length: usize, source: &D)
 where
     D: data_source::DataSource,
 {
-    unsafe {
-        let data: &[u8] = source.get_bytes(path);
-        assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
-        let target = slice::from_raw_parts_mut(base, length);
-        target.copy_from_slice(data);
-    }
+    let data: &[u8] = source.get_bytes(path);
+    assert!(length == data.len());
+    buffer[..length].copy_from_slice(data);
 }
 
 pub struct Marshaller {
@@ -719,10 +692,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
-                            let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer;
-                        },
+                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            return util::get_value::<T>(data, field.offset);
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -763,21 +735,16 @@ impl Marshaller {
                     let offset = layout.variable_field_offset(var_size_field_index, data);
 
                     let length = match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            *pointer as usize
-                        },
+                        FixedSizeFieldKind::Length => {
+                            util::get_value::<LengthEncodingType>(data, field.offset) as usize
+                        }
                         _ => panic!("Incorrect field type"),
                     };
 
                     // need to create a slice of the appropriate type with the appropriat enumber
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
-                        VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
-                            return slice::from_raw_parts(mem::transmute(base), length);
-                        },
+                        VariableSizeFieldKind::String => return &data[offset..][..length],
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -823,31 +790,21 @@ impl Marshaller {
                             num_bits,
                         } => {
                             let case_value = match primitive {
-                                types::Primitive::U128 => unsafe {
-                                    let pointer: *const u128 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U64 => unsafe {
-                                    let pointer: *const u64 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U32 => unsafe {
-                                    let pointer: *const u32 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U16 => unsafe {
-                                    let pointer: *const u16 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U8 => unsafe {
-                                    let pointer: *const u8 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
+                                types::Primitive::U128 => {
+                                        util::get_value::<u128>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U64 => {
+                                        util::get_value::<u64>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U32 => {
+                                        util::get_value::<u32>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U16 => {
+                                        util::get_value::<u16>(data, tag_field.offset) as usize
+                                    }
+                                types::Primitive::U8 => {
+                                        util::get_value::<u8>(data, tag_field.offset) as usize
+                                    }
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
@@ -892,11 +849,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer as usize;
-                        },
+                        FixedSizeFieldKind::Length => {
+                            return util::get_value::<LengthEncodingType>(data, field.offset) as usize;
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 87414bbabcf9ed58f02b02bc9d29666aca4ceabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 14/47] fix: case tags as wide as their container overflowed
 the bit mask

---
 src/core/marshaller.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 6cdf606..87a90d5 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -216,6 +216,11 @@ fn primitive_for_bits(num_bits: usize) -> types::Primitive {
     }
 }
 
+/// The `num_bits` least significant bits
+fn bit_mask(num_bits: u8) -> u128 {
+    1u128.checked_shl(num_bits as u32).unwrap_or(0).wrapping_sub(1)
+}
+
 fn allocate_bitfields(bit_fields: &mut Vec<Bitfield>) -> Vec<FixedSizeField> {
     let mut result = Vec::new();
     let mut capacity = Vec::new();
@@ -448,7 +453,7 @@ impl Layout {
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
-                                (case_value >> bit_offset) & ((1usize << num_bits) - 1)
+                                (case_value >> bit_offset) & bit_mask(*num_bits) as usize
                             }
                             _ => panic!("Bitfiled expected as enum case tag value"),
                         }
@@ -527,7 +532,7 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (bit_mask(*num_bits) as u8) << bit_offset;
                             let old: u8 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -536,7 +541,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U16 => {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (bit_mask(*num_bits) as u16) << bit_offset;
                             let old: u16 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -545,7 +550,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U32 => {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (bit_mask(*num_bits) as u32) << bit_offset;
                             let old: u32 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -554,7 +559,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U64 => {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (bit_mask(*num_bits) as u64) << bit_offset;
                             let old: u64 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -563,7 +568,7 @@ impl Layout {
                             );
                         }
                         types::Primitive::U128 => {
-                            let mask = ((1u128 << num_bits) - 1) << bit_offset;
+                            let mask = (bit_mask(*num_bits) as u128) << bit_offset;
                             let old: u128 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
@@ -808,7 +813,7 @@ impl Marshaller {
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
-                            return (case_value >> bit_offset) & ((1usize << num_bits) - 1);
+                            return (case_value >> bit_offset) & bit_mask(*num_bits) as usize;
                         }
                         _ => panic!("Bitfiled expected as enum case tag value"),
                     }
-- 
2.43.0


From e9bbf38afa1e2d56992e382d4a4359ff8cab5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 15/47] fix: the tag of a single-case enum could be placed
 beyond its container

---
 src/core/marshaller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 87a90d5..a437988 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -237,7 +237,8 @@ fn allocate_bitfields(bit_fields: &mut Vec<Bitfield>) -> Vec<FixedSizeField> {
         for index in 0..result.len() {
             if capacity[index] >= num_bits as usize {
                 field.index = index;
-                field.bit_offset = offsets[index] as u8;
+                // a field without bits may find a full container, at whose end there is no bit
+                field.bit_offset = if num_bits > 0 { offsets[index] as u8 } else { 0 };
                 capacity[index] = capacity[index] - num_bits;
                 offsets[index] = offsets[index] + num_bits;
 
-- 
2.43.0


From 7b8e9c1568f302cdd6edd2b9a690c99f33d3cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 16/47] fix: encoding into a buffer shorter than the announced
 size was accepted

---
 src/core/marshaller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index a437988..b90e795 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -645,7 +645,9 @@ impl Layout {
             }
         }
 
-        util::align(offset, self.alignment)
+        let size = util::align(offset, self.alignment);
+        assert!(buffer.len() >= size);
+        size
     }
 }
 
-- 
2.43.0


From e7781c874dc4a76d6e180649024d1feb62af359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 17/47] fix: corrupt records could read as invalid bool or char
 values

---
 src/core/marshaller.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index b90e795..c2d407e 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -701,6 +701,17 @@ impl Marshaller {
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
                         FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            // not every byte pattern is a value of these types
+                            match primitive {
+                                types::Primitive::Bool => {
+                                    assert!(util::get_value::<u8>(data, field.offset) <= 1)
+                                }
+                                types::Primitive::Char => assert!(char::from_u32(
+                                    util::get_value::<u32>(data, field.offset)
+                                )
+                                .is_some()),
+                                _ => (),
+                            }
                             return util::get_value::<T>(data, field.offset);
                         }
                         _ => panic!("Incorrect field type"),
-- 
2.43.0


From 4d0561d63416369601126c0222758f65ab90ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 18/47] fix: tokenizer accepted white space that JSON does not
 know

---
 src/core/json/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..da9a02c 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -176,7 +176,8 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
+            // only these count as white space in JSON
+            if !(ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') {
                 break;
             }
 
-- 
2.43.0


From 7980ab65a83c4ecca540657f6eda0a3dbf39d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 19/47] fix: tokenizer accepted malformed numbers

---
 src/core/json/tokenizer.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index da9a02c..bc8f2f8 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -315,9 +315,17 @@ impl<'a> Tokenizer<'a> {
             self.advance()
         }
 
-        // digit sequence; strictly speaking, no leading zero is allowed
+        // digit sequence; no leading zero is allowed
         match self.look_ahead {
-            Some((_, '0')) => self.advance(),
+            Some((_, '0')) => {
+                self.advance();
+
+                if let Some((_, ch)) = self.look_ahead {
+                    if ch.is_digit(10) {
+                        return Err(String::from("Invalid leading zero in number"));
+                    }
+                }
+            }
             Some((_, ch)) if ch.is_digit(10) => {
                 self.advance();
                 self.digits()
@@ -328,7 +336,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From 3891be887dbebb54234d9c6970d71bcc8fceebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 20/47] fix: malformed Unicode escapes crashed the tokenizer or
 were accepted

---
 src/core/json/tokenizer.rs | 64 +++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index bc8f2f8..61fc2e8 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -238,35 +238,63 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'r')) => Ok(self.push_string_char('\r')),
             Some((_, 't')) => Ok(self.push_string_char('\t')),
             Some((_, 'u')) => {
-                self.advance();
+                let mut char_code = self.hex_code_unit()?;
 
-                let mut char_code = 0u32;
+                // characters outside of the basic plane are given as pair of surrogates
+                if char_code >= 0xd800 && char_code <= 0xdbff {
+                    let mut low = 0;
 
-                // need for hexadecimal digits
-                for _ in 0..4 {
-                    match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            }
-                        }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
+                    if let Some((_, '\\')) = self.look_ahead {
+                        self.advance();
+
+                        if let Some((_, 'u')) = self.look_ahead {
+                            low = self.hex_code_unit()?;
                         }
                     }
+
+                    if low >= 0xdc00 && low <= 0xdfff {
+                        char_code = 0x10000 + ((char_code - 0xd800) << 10) + (low - 0xdc00);
+                    }
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
-                Ok(())
+                match char::from_u32(char_code) {
+                    Some(ch) => {
+                        self.string_buffer.push(ch);
+                        Ok(())
+                    }
+                    None => Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    )),
+                }
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
         }
     }
 
+    fn hex_code_unit(&mut self) -> Result<u32, TokenizerError> {
+        // eat 'u'
+        self.advance();
+
+        let mut char_code = 0u32;
+
+        // need four hexadecimal digits
+        for _ in 0..4 {
+            match self.look_ahead.and_then(|(_, ch)| ch.to_digit(16)) {
+                Some(digit) => {
+                    char_code = char_code * 16 + digit;
+                    self.advance();
+                }
+                None => {
+                    return Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    ))
+                }
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn match_string(&mut self) -> TokenizerResult {
         // markers are used for error token
         self.mark_start();
-- 
2.43.0


From da03a0b3d242cc9150b3360ec35f9a84d96483ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 21/47] fix: the encoder wrote an escape for NUL that JSON does
 not have

---
 src/core/json/encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..7982c21 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -36,7 +36,6 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
-- 
2.43.0


From 4822571af7729fad770c3254de204459c5065f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 22/47] fix: the encoder wrote escapes for control characters
 that are not hexadecimal

---
 src/core/json/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 7982c21..95f4b68 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -49,8 +49,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = "0123456789abcdef".as_bytes()[b0 as usize >> 4];
+            buffer[5] = "0123456789abcdef".as_bytes()[b0 as usize & 0xf];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 5784a4fcda57187d8c9133c5a6e72a52e07d0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 23/47] fix: the encoder wrote characters from U+8000 as
 overlong sequences

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 95f4b68..6663f06 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -62,7 +62,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From 92f7e55f26c63370ea04bc91a55390791b72d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 24/47] fix: the encoder lost characters if the destination did
 not take them at once

---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 6663f06..b0d06ae 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -36,14 +36,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -51,29 +51,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = "0123456789abcdef".as_bytes()[b0 as usize >> 4];
             buffer[5] = "0123456789abcdef".as_bytes()[b0 as usize & 0xf];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From e25377f8649c3f0e29e93410d8af9300043f35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 25/47] fix: the decoder ignored what follows the value

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..5777cd1 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -533,7 +533,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token == tokenizer::Token::Eof {
+            Ok(())
+        } else {
+            Err(String::from("Nothing is allowed after the value"))
+        }
     }
 }
 
-- 
2.43.0


From 00a5ee6ae6ee6eaed7469192ed290c27bddf3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 26/47] fix: a failed decode could leave the values of an
 earlier one

---
 src/core/json/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 5777cd1..7f4682d 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -531,8 +531,8 @@ impl JsonDecoder {
         input: &str,
         result: &mut IntermediateDataSource,
     ) -> Result<(), String> {
-        let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
+        let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         self.parser.parse(&mut tokenizer, result)?;
 
         if tokenizer.token == tokenizer::Token::Eof {
-- 
2.43.0


From cc933065dbf4d04ff0bc9c831dd91527e4435a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 27/47] fix: decoding a struct of 64 or more fields crashed

---
 src/core/json/decoder.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 7f4682d..8e909d3 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -64,7 +64,7 @@ trait BitSet {
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
         assert!(n <= 64);
-        (1u64 << n) - 1
+        1u64.checked_shl(n as u32).unwrap_or(0).wrapping_sub(1)
     }
 
     fn clear_element(&mut self, index: usize) {
@@ -80,6 +80,25 @@ impl BitSet for u64 {
     }
 }
 
+// for any number of elements
+impl BitSet for Vec<bool> {
+    fn new_with_elements(n: usize) -> Self {
+        vec![true; n]
+    }
+
+    fn clear_element(&mut self, index: usize) {
+        self[index] = false
+    }
+
+    fn has_element(&self, index: usize) -> bool {
+        self[index]
+    }
+
+    fn is_empty(&self) -> bool {
+        !self.contains(&true)
+    }
+}
+
 struct StructParser<T: BitSet> {
     indices: collections::BTreeMap<String, usize>,
     fields: Vec<Box<dyn JsonParser>>,
@@ -479,7 +498,7 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                 .enumerate()
                 .map(|(index, field)| (field.label.clone(), index))
                 .collect();
-            let fields = fields
+            let fields: Vec<Box<dyn JsonParser>> = fields
                 .iter()
                 .enumerate()
                 .map(|(index, field)| {
@@ -487,6 +506,16 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                     parser_for_type(component_path, &field.typ)
                 })
                 .collect();
+
+            if fields.len() > 64 {
+                let struct_parser: StructParser<Vec<bool>> = StructParser {
+                    indices,
+                    fields,
+                    _marker: marker::PhantomData,
+                };
+                return Box::new(struct_parser);
+            }
+
             let struct_parser: StructParser<u64> = StructParser {
                 indices,
                 fields,
-- 
2.43.0


From a5ce8b38228442ff8a96b09171ac0d57f3214884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 28/47] fix: numbers out of the range of a float decoded as
 infinity

---
 src/core/json/decoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 8e909d3..2727c9c 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -321,7 +321,22 @@ where
     }
     match T::from_str(tokenizer.value()) {
         Ok(val) => {
-            data_source.add_primitive(path, embed(val));
+            let val = embed(val);
+
+            // a number that is too large must not turn into infinity
+            if tokenizer.token == tokenizer::Token::Number {
+                match val {
+                    value::PrimitiveValue::F32(val) if val.is_infinite() => {
+                        return Err(String::from("Number out of range"))
+                    }
+                    value::PrimitiveValue::F64(val) if val.is_infinite() => {
+                        return Err(String::from("Number out of range"))
+                    }
+                    _ => (),
+                }
+            }
+
+            data_source.add_primitive(path, val);
             tokenizer.next()
         }
         Err(err) => Err(err.to_string()),
-- 
2.43.0


From a815d000c117abc3d118d1285922883c79032ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 29/47] fix: NaN and infinities were encoded as bare words,
 which are not JSON

---
 src/core/json/encoder.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index b0d06ae..f8e460d 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -234,8 +234,6 @@ macro_rules! encoder_emit_primitive {
 
 encoder_emit_primitive!(get_bool, bool);
 encoder_emit_primitive!(get_char, char);
-encoder_emit_primitive!(get_f32, f32);
-encoder_emit_primitive!(get_f64, f64);
 encoder_emit_primitive!(get_u8, u8);
 encoder_emit_primitive!(get_u16, u16);
 encoder_emit_primitive!(get_u32, u32);
@@ -247,6 +245,28 @@ encoder_emit_primitive!(get_i32, i32);
 encoder_emit_primitive!(get_i64, i64);
 encoder_emit_primitive!(get_i128, i128);
 
+// NaN and infinities are not JSON numbers; they are written as strings, which the decoder accepts
+macro_rules! encoder_emit_float {
+    ($get_primitive:ident, $typ:ident) => {
+        impl JsonEmitter for EmitNumber<$typ> {
+            fn emit(&self, writer: &mut dyn io::Write, source: &dyn DataSource) -> io::Result<()> {
+                let value = source.$get_primitive(&self.path);
+
+                if value.is_finite() {
+                    write!(writer, "{}", value)?;
+                } else {
+                    write!(writer, "\"{}\"", value)?;
+                }
+
+                Ok(())
+            }
+        }
+    };
+}
+
+encoder_emit_float!(get_f32, f32);
+encoder_emit_float!(get_f64, f64);
+
 pub struct JsonEncoder {
     emitter: Box<dyn JsonEmitter>,
 }
-- 
2.43.0


From ff3514690c174e006e5bad8624ad4055613f029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 30/47] fix: no path was ever a proper prefix of another

The check compared the path's length to itself, so it always failed.
---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From 245d0bd9e643277fabdfc1c52dc84a9eb8c616c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 31/47] fix: a tuple component could be named with a sign

usize::from_str accepts a leading '+', so that "+1" named an element.
---
 src/core/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index b430081..538fb35 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -224,7 +224,8 @@ impl Path {
                     }
                 },
                 Kind::Tuple(ref elements) => match usize::from_str(component) {
-                    Ok(index) if index < elements.len() => {
+                    // from_str also takes a sign, which is not part of a name
+                    Ok(index) if index < elements.len() && !component.starts_with('+') => {
                         components.push(index);
                         typ = elements[index].as_ref();
                     }
-- 
2.43.0


From f9a00e87e9b8d289272d7dd6490918677289dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 32/47] fix: IS NULL had the type of its operand instead of a
 logical one

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9fe4b72..6655a8c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From c6dd682a108d642d8fe24b14928e64007f55e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 33/47] fix: comparing tuples with nullable components was
 declared never NULL

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 6655a8c..aa45490 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From 9acee4d7a92347e16286950756e6504fd86f269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 34/47] fix: IN was accepted only for nullable operands, and
 declared never NULL

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index aa45490..2ec8258 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -624,17 +624,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 85eb1b92ab929949d605304c21351fb77e12aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 35/47] fix: the guards of CASE expressions were not checked

---
 src/sql/ast/typing.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 2ec8258..c091106 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -562,14 +562,9 @@ impl Expression {
                 let _ = fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 671880f5c6b33bb5a89f3d462a92bff66a7120b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 36/47] fix: a CASE expression with a tuple as result crashed

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index c091106..7569e8a 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -604,7 +606,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From 5263dcd876ea150f2194b63d99f41fc49ba56816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 37/47] fix: IN with an empty list crashed

---
 src/sql/ast/typing.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 7569e8a..4403389 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -615,6 +615,20 @@ impl Expression {
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
+
+                // nothing is a member of the empty list
+                match (&expr_type, set) {
+                    (&ScalarType::Scalar { .. }, &SetSpecification::List(ref values))
+                        if values.is_empty() =>
+                    {
+                        return Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        })
+                    }
+                    _ => (),
+                }
+
                 let set_type = set.infer_type(&context)?;
 
                 if set_type.attributes.len() != 1 {
@@ -1261,7 +1275,9 @@ impl SetSpecification {
             }
             &SetSpecification::List(ref values) => {
                 let mut iter = values.iter();
-                let initial_type = iter.next().unwrap().infer_type(&context);
+                let initial_type = iter.next()
+                    .ok_or(Error::from("Set specification must not be empty"))?
+                    .infer_type(&context);
                 let value_type = iter.fold(initial_type, |typ, expr| {
                     let expr_type = expr.infer_type(&context)?;
                     typ?.unify(&expr_type)
-- 
2.43.0


From 4d578a833586300ae95c32073c071b0b89498e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 38/47] fix: looking up a table crashed if the default schema
 does not exist

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 4403389..60e8500 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -881,7 +881,7 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from("Default namespace not present in database")),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From 73d8176d99bf1bc1a903963dfe1d56c6b1083aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 39/47] fix: tables hid columns of the same name, and t.*
 sorted its columns

The attributes and the relations in scope shared one name space, and a relation
kept its attributes in a map.
---
 src/sql/ast/typing.rs | 89 +++++++++++++------------------------------
 1 file changed, 26 insertions(+), 63 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 60e8500..4eee465 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -125,9 +125,6 @@ enum ScalarContextSymbol {
 
     // a conflict of attribute from different relations
     AttributeConflict,
-
-    // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -136,8 +133,11 @@ pub struct ScalarContext<'a> {
     // reference to an underlying SetContext
     set_context: &'a SetContext,
 
-    // need a way to capture qualified attributes and attributes without qualification
+    // attributes that can be accessed without qualification
     symbols: collections::BTreeMap<symbols::Name, ScalarContextSymbol>,
+
+    // relations with their constituent attributes; a relation may have the name of an attribute
+    relations: collections::BTreeMap<symbols::Name, Vec<Attribute>>,
 }
 
 impl<'a> ScalarContext<'a> {
@@ -145,6 +145,7 @@ impl<'a> ScalarContext<'a> {
         ScalarContext {
             set_context,
             symbols: collections::BTreeMap::new(),
+            relations: collections::BTreeMap::new(),
         }
     }
 
@@ -168,35 +169,13 @@ impl<'a> ScalarContext<'a> {
                     ScalarContextSymbol::AttributeConflict,
                 )),
                 Some(&ScalarContextSymbol::AttributeConflict) => (),
-                Some(&ScalarContextSymbol::Relation(_)) => (),
             }
         }
 
         // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
-
-        match self.symbols.get(&name) {
-            Some(&ScalarContextSymbol::Relation(_)) => {
-                Err(Error::from(format!("Duplicate relation name '{}'", &name)))
-            }
-            _ => {
-                mem::drop(
-                    self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
-                );
-                Ok(())
-            }
+        match self.relations.insert(name.clone(), attributes) {
+            Some(_) => Err(Error::from(format!("Duplicate relation name '{}'", &name))),
+            None => Ok(()),
         }
     }
 
@@ -212,15 +191,15 @@ impl<'a> ScalarContext<'a> {
                     "Ambiguous attribute name '{}'",
                     &qualified_name[0]
                 ))),
-                Some(&ScalarContextSymbol::Relation(_)) => Err(Error::from(format!(
-                    "Name '{}' refers to a relation",
-                    &qualified_name[0]
-                ))),
             },
-            2 => match self.symbols.get(&qualified_name[0]) {
-                Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
+            2 => match self.relations.get(&qualified_name[0]) {
+                Some(attributes) => attributes
+                    .iter()
+                    .find(|attribute| attribute.name == qualified_name[1])
+                    .map(|attribute| ScalarType::Scalar {
+                        typ: attribute.typ,
+                        is_null: attribute.is_null,
+                    })
                     .ok_or_else(|| {
                         Error::from(format!(
                             "Name '{}' does not refer to an attribute of relation '{}'",
@@ -1147,37 +1126,21 @@ impl ResultColumns {
             },
             &ResultColumns::List(ref column_list) => for column in column_list {
                 match &**column {
-                    &ResultColumn::AllFrom(ref name) => match context.symbols.get(name) {
+                    &ResultColumn::AllFrom(ref name) => match context.relations.get(name) {
                         None => {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
-                        Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
-                                    ),
-                                }
+                        Some(fields) => {
+                            for field in fields {
+                                let result_name =
+                                    generate_column_name(&field.name, &mut generated_columns);
+                                result_attributes.push(Attribute {
+                                    name: result_name,
+                                    typ: field.typ,
+                                    is_null: field.is_null,
+                                });
                             }
                         }
-                        Some(_) => {
-                            return Err(Error::from(format!(
-                                "Symbol {} needs to be a range variable",
-                                name
-                            )))
-                        }
                     },
                     &ResultColumn::Expr {
                         ref expr,
-- 
2.43.0


From fbc22e88c4e47c8c03f23e675daf81edb218d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 40/47] fix: the columns of a nested SELECT in FROM could not
 be referred to

---
 src/sql/ast/typing.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 4eee465..84375ff 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -149,13 +149,9 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
-    fn add_relation(
-        &mut self,
-        name: symbols::Name,
-        attributes: Vec<Attribute>,
-    ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
+    // add the individual attributes
+    fn add_attributes(&mut self, attributes: &[Attribute]) {
+        for attribute in attributes {
             match self.symbols.get(&attribute.name) {
                 None => mem::drop(self.symbols.insert(
                     attribute.name.clone(),
@@ -171,6 +167,14 @@ impl<'a> ScalarContext<'a> {
                 Some(&ScalarContextSymbol::AttributeConflict) => (),
             }
         }
+    }
+
+    fn add_relation(
+        &mut self,
+        name: symbols::Name,
+        attributes: Vec<Attribute>,
+    ) -> Result<(), Error> {
+        self.add_attributes(&attributes);
 
         // add the relationship entry
         match self.relations.insert(name.clone(), attributes) {
@@ -1203,9 +1207,18 @@ impl TableExpression {
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // register the columns in the context, under the alias if there is one
+                match alias {
+                    &Some(ref id) => {
+                        context.add_relation(id.clone(), row_type.attributes.clone())?
+                    }
+                    &None => context.add_attributes(&row_type.attributes),
+                }
+
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
-- 
2.43.0


From 60eff13b81ce5fd8bf6ed7db8692fc17afc3e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 41/47] fix: common table expressions could not be referred to

---
 src/sql/ast/typing.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 84375ff..2476b30 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -779,7 +779,9 @@ where
     }
 }
 
+#[derive(Clone)]
 struct ObjectTypes(collections::BTreeMap<symbols::Name, RowType>);
+#[derive(Clone)]
 struct Namespaces(collections::BTreeMap<symbols::Name, ObjectTypes>);
 
 impl<T> From<T> for ObjectTypes
@@ -820,6 +822,7 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
     namespaces: Namespaces,
@@ -1326,16 +1329,21 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
+        // common table expression; validate type of each expression and build up a SetContext,
+        // where names may hide those of an enclosing statement
+        let mut set_context = context.clone();
         let mut scalar_context = ScalarContext::new(context);
 
-        // common table expression; validate type of each expression and build up a ScalarConext
         for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
+            let cte_type = cte.infer_type(&set_context)?;
+            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes.clone())?;
+            set_context
+                .table_expression
+                .insert(cte.identifier.clone(), cte_type);
         }
 
         // set expression
-        let result_type = self.expr.infer_type(context)?;
+        let result_type = self.expr.infer_type(&set_context)?;
 
         // order by
         for ref iter in &self.order_by {
-- 
2.43.0


From f788621cee2c91bdc89d61f9cc51f6cb768d5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 42/47] fix: ORDER BY could refer neither to the tables nor to
 the result columns

---
 src/sql/ast/typing.rs | 46 +++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 2476b30..9132fed 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -924,6 +924,15 @@ impl SetContext {
 
 impl SetExpression {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
+        Ok(self.infer_type_with_context(context)?.0)
+    }
+
+    // In addition to the type of the rows, determines the bindings of the relations they are
+    // selected from.
+    fn infer_type_with_context<'a>(
+        &self,
+        context: &'a SetContext,
+    ) -> Result<(RowType, ScalarContext<'a>), Error> {
         match self {
             &SetExpression::Values(ref rows) => {
                 let scalar_context = ScalarContext::new(context);
@@ -974,11 +983,12 @@ impl SetExpression {
                         )
                     })?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes: component_types,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, scalar_context))
             }
             &SetExpression::Query {
                 mode: _,
@@ -1043,7 +1053,8 @@ impl SetExpression {
                 };
 
                 // evaluate columns; the default columns should be passed into this function
-                columns.infer_type(&scalar_context, &attributes)
+                let row_type = columns.infer_type(&scalar_context, &attributes)?;
+                Ok((row_type, scalar_context))
             }
             &SetExpression::Op {
                 op: _,
@@ -1080,11 +1091,12 @@ impl SetExpression {
                     },
                 )?;
 
-                Ok(RowType {
+                let row_type = RowType {
                     attributes,
                     primary_key: Vec::new(),
                     order_by: Vec::new(),
-                })
+                };
+                Ok((row_type, ScalarContext::new(context)))
             }
         }
     }
@@ -1332,27 +1344,41 @@ impl SelectStatement {
         // common table expression; validate type of each expression and build up a SetContext,
         // where names may hide those of an enclosing statement
         let mut set_context = context.clone();
-        let mut scalar_context = ScalarContext::new(context);
+        let mut identifiers = collections::BTreeSet::new();
 
         for ref cte in &self.common {
             let cte_type = cte.infer_type(&set_context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes.clone())?;
+
+            if !identifiers.insert(&cte.identifier) {
+                return Err(Error::from(format!(
+                    "Duplicate name '{}' for common table expression",
+                    cte.identifier
+                )));
+            }
+
             set_context
                 .table_expression
                 .insert(cte.identifier.clone(), cte_type);
         }
 
         // set expression
-        let result_type = self.expr.infer_type(&set_context)?;
+        let (result_type, mut scalar_context) =
+            self.expr.infer_type_with_context(&set_context)?;
+
+        // order by; the names of result columns take precedence over those of the tables
+        for attribute in &result_type.attributes {
+            scalar_context.symbols.remove(&attribute.name);
+        }
+
+        scalar_context.add_attributes(&result_type.attributes);
 
-        // order by
         for ref iter in &self.order_by {
             iter.validate_type(&scalar_context)?;
         }
 
         // limit
         if let &Some(ref limit) = &self.limit {
-            limit.validate_type(&scalar_context.set_context)?;
+            limit.validate_type(&set_context)?;
         }
 
         Ok(result_type)
-- 
2.43.0


From d16d4da47c1e5702679168695401ea1153e41843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 43/47] fix: columns from the optional side of an outer join
 were declared never NULL

---
 src/sql/ast/typing.rs | 53 +++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9132fed..7f132ef 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1002,7 +1002,8 @@ impl SetExpression {
                     (ScalarContext::new(context), Vec::new()),
                     from.iter(),
                     |(context, mut attributes), ref table_expr| {
-                        let (context, mut new_attribiutes) = table_expr.infer_type(context)?;
+                        let (context, mut new_attribiutes) =
+                            table_expr.infer_type(context, false)?;
                         attributes.append(&mut new_attribiutes);
                         Ok((context, attributes))
                     },
@@ -1192,12 +1193,25 @@ impl ResultColumns {
     }
 }
 
+/// The attributes of a relation as part of a join; they can be NULL if the relation is optional.
+fn joined_attributes(attributes: &[Attribute], optional: bool) -> Vec<Attribute> {
+    attributes
+        .iter()
+        .map(|attribute| Attribute {
+            is_null: attribute.is_null || optional,
+            ..attribute.clone()
+        })
+        .collect()
+}
+
 impl TableExpression {
     // The RowSet represents the columns that are visible in SELECT *; the ScalarContext provides
-    // look-up information for any other expression that is to be evaluated.
+    // look-up information for any other expression that is to be evaluated. If the rows are on the
+    // optional side of an outer join, any column can be NULL.
     fn infer_type<'a>(
         &self,
         mut context: ScalarContext<'a>,
+        optional: bool,
     ) -> Result<(ScalarContext<'a>, Vec<Attribute>), Error> {
         match self {
             &TableExpression::Named {
@@ -1215,10 +1229,11 @@ impl TableExpression {
                 };
 
                 // register the table and its columns in the context
-                context.add_relation(identifier, row_type.attributes.clone())?;
+                let attributes = joined_attributes(&row_type.attributes, optional);
+                context.add_relation(identifier, attributes.clone())?;
 
                 // return the expanded context, as well as all the attributes as default result column list
-                Ok((context, row_type.attributes.clone()))
+                Ok((context, attributes))
             }
             &TableExpression::Select {
                 ref select,
@@ -1226,24 +1241,38 @@ impl TableExpression {
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
 
+                let attributes = joined_attributes(&row_type.attributes, optional);
+
                 // register the columns in the context, under the alias if there is one
                 match alias {
-                    &Some(ref id) => {
-                        context.add_relation(id.clone(), row_type.attributes.clone())?
-                    }
-                    &None => context.add_attributes(&row_type.attributes),
+                    &Some(ref id) => context.add_relation(id.clone(), attributes.clone())?,
+                    &None => context.add_attributes(&attributes),
                 }
 
-                Ok((context, row_type.attributes))
+                Ok((context, attributes))
             }
             &TableExpression::Join {
                 ref left,
                 ref right,
-                op: _,
+                ref op,
                 constraint: _,
             } => {
-                let (left_context, mut attributes) = left.infer_type(context)?;
-                let (result_context, mut right_attributes) = right.infer_type(left_context)?;
+                let (left_optional, right_optional) = match op {
+                    &JoinOperator::Join(ref join_type) | &JoinOperator::Natural(ref join_type) => {
+                        match join_type {
+                            &JoinType::Inner => (false, false),
+                            &JoinType::Left => (false, true),
+                            &JoinType::Right => (true, false),
+                            &JoinType::Full => (true, true),
+                        }
+                    }
+                    &JoinOperator::Cross => (false, false),
+                };
+
+                let (left_context, mut attributes) =
+                    left.infer_type(context, optional || left_optional)?;
+                let (result_context, mut right_attributes) =
+                    right.infer_type(left_context, optional || right_optional)?;
 
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
-- 
2.43.0


From a87c06efa8f9a89c9754b56ba182c0fcd03f0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 44/47] fix: the constraints of joins were not checked

---
 src/sql/ast/typing.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 7f132ef..25cde94 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1204,6 +1204,20 @@ fn joined_attributes(attributes: &[Attribute], optional: bool) -> Vec<Attribute>
         .collect()
 }
 
+/// The type of the one attribute of the given name.
+fn unique_attribute(attributes: &[Attribute], name: &symbols::Name) -> Result<ScalarType, Error> {
+    let mut candidates = attributes.iter().filter(|attribute| attribute.name == *name);
+
+    match (candidates.next(), candidates.next()) {
+        (Some(attribute), None) => Ok(ScalarType::Scalar {
+            typ: attribute.typ,
+            is_null: attribute.is_null,
+        }),
+        (None, _) => Err(Error::from(format!("Undefined attribute name '{}'", name))),
+        _ => Err(Error::from(format!("Ambiguous attribute name '{}'", name))),
+    }
+}
+
 impl TableExpression {
     // The RowSet represents the columns that are visible in SELECT *; the ScalarContext provides
     // look-up information for any other expression that is to be evaluated. If the rows are on the
@@ -1255,7 +1269,7 @@ impl TableExpression {
                 ref left,
                 ref right,
                 ref op,
-                constraint: _,
+                ref constraint,
             } => {
                 let (left_optional, right_optional) = match op {
                     &JoinOperator::Join(ref join_type) | &JoinOperator::Natural(ref join_type) => {
@@ -1274,6 +1288,26 @@ impl TableExpression {
                 let (result_context, mut right_attributes) =
                     right.infer_type(left_context, optional || right_optional)?;
 
+                // validate the join constraint
+                match constraint {
+                    &JoinConstraint::Expr(ref expr) => match expr.infer_type(&result_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "ON clause must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    },
+                    &JoinConstraint::Columns(ref columns) => for column in columns {
+                        let left_type = unique_attribute(&attributes, column)?;
+                        let right_type = unique_attribute(&right_attributes, column)?;
+                        left_type.is_compatible(&right_type)?;
+                    },
+                }
+
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
             }
-- 
2.43.0


From 8d61d2836b7339fe31244cafc6bd0db3edcc1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 45/47] fix: rows of different lengths were accepted as one set
 of rows

---
 src/sql/ast/typing.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 25cde94..b450375 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -956,6 +956,10 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from("Rows of different lengths"));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
@@ -1065,6 +1069,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Set operation on rows with different numbers of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From b5b47005e19d9a7b32861456c9e52e51f91d9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 46/47] fix: a generated column name could be that of another
 column

---
 src/sql/ast/typing.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index b450375..82c1375 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1118,11 +1118,16 @@ fn generate_column_name(
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
     if generated_names.contains_key(name) {
-        let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
+        // take the next number that does not give a name already used
+        let mut counter = generated_names[name];
+        let result = loop {
+            counter += 1;
+            let candidate = symbols::Name::from(format!("{}{}", name, counter));
+            if !generated_names.contains_key(&candidate) {
+                break candidate;
+            }
         };
+        generated_names.insert(name.clone(), counter);
 
         generated_names.insert(result.clone(), 0usize);
         result
-- 
2.43.0


From e086797383d74ee59370d4611c5e443c2b368c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 47/47] fix: INSERT without a column list was not possible

The names of the values, which are generated ones, were taken for those of the columns.
---
 src/sql/ast/typing.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 82c1375..17d2a60 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1477,27 +1477,29 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
+                // values are assigned to the columns of the table by position
+                if values_type.attributes.len() > row_type.attributes.len() {
+                    return Err(Error::from(format!(
+                        "More values than columns in table '{:?}'",
+                        &self.table_name
+                    )));
+                }
+
                 // iterate over the value attriute types, and verify that the
                 // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                for (attribute, column) in values_type
+                    .attributes
+                    .iter()
+                    .zip(row_type.attributes.iter())
+                {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


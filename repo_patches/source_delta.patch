From 4accc15bf9075a72d053120f93f1c3baa59f3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 01/21] fix: compute the partition table size in 64 bits

num_parts * part_size overflowed u32 (panic in debug builds, a table of the
wrong size in release builds).
---
 src/header/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..a577e2d 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -132,8 +132,9 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        // can not overflow since both are u32
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-- 
2.43.0


From 6826ab938bb3502840647838c88cb7458a717a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/21] fix: never let the usable range reach into the backup
 partition table

last_usable was only ever raised: once the partition count grew, or when a too
large value was set, the backup table overlapped the backup header and its
checksum was broken by the header that is written after it.
---
 src/header/builder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index a577e2d..0eb5835 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -51,7 +51,8 @@ impl HeaderBuilder {
             primary_lba,
             backup_lba,
             first_usable: header.first_usable,
-            last_usable: header.last_usable,
+            // gets recalculated, since the backup lba or the num parts might change
+            last_usable: 0,
             num_parts: header.num_parts,
             part_size: header.part_size,
         }
@@ -141,12 +142,16 @@ impl HeaderBuilder {
             1 + 1 + part_array_lbs,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = if self.last_usable == 0 {
+            max_last_usable
+        } else {
+            self.last_usable.min(max_last_usable)
+        };
 
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
-- 
2.43.0


From 417042688f64b43471792506095ab6facb614bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 03/21] fix: place the first usable block after the primary
 partition table

The table follows the primary header, wherever that one is located.
---
 src/header/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 0eb5835..2b882cc 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -138,8 +138,10 @@ impl HeaderBuilder {
         let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
-            // mbr, header, part_array
-            1 + 1 + part_array_lbs,
+            // everything up to the header, header, part_array
+            self.primary_lba
+                .checked_add(1 + part_array_lbs)
+                .ok_or(HeaderError::Overflow("header builder - first usable"))?,
         );
 
         // last is inclusive: end of disk is (partition array) (backup header)
-- 
2.43.0


From 7de9ebe358f31c608fc64fa5995829bd216e9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 04/21] fix: add_partition_at must check the end of the free
 segment

A partition starting in a free segment could reach beyond it, into the next
partition or past the last usable block.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..bf4cfe8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,10 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            if !(first_lba >= starting_lba
+                && length_lba <= length
+                && first_lba - starting_lba <= length - length_lba)
+            {
                 continue;
             }
 
-- 
2.43.0


From 5be4fcc4b6e73b773868ca1bf852d3721e0ecbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 05/21] fix: add_partition overflowed on huge alignments and
 divided by zero

alignment offset + size can exceed u64, and Some(0) as alignment panicked.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf4cfe8..94b294e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,10 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
-                Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
+                Some(alignment) if alignment > 0 => {
+                    (alignment - (starting_lba % alignment)) % alignment
+                }
+                _ => 0_u64,
             };
 
             debug!(
@@ -528,7 +530,7 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if length >= alignment_offset_lba && length - alignment_offset_lba >= size_lba {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From dd3cb89656cd62b518df286ef2cde7c96a716c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 06/21] fix: write the disk guid set by update_guid

update_guid promises that the guid gets recorded by write(), but the headers
kept the previous one.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 94b294e..53067c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -879,6 +879,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From 6a97c49bfd58f12fffe6d4efc2d5498dbd5369a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 07/21] fix: return an error for unsupported partition entry
 sizes

Opening a disk with a valid header that uses another entry size panicked.
---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From 0eea29cf5f34be0c4132652eb88c5a2ee74bf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 08/21] fix: report partition positions which do not fit in 64
 bits

pstart + offset wrapped around in release builds and the entry was written to
the wrong place.
---
 src/partition.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..f14218d 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,8 +159,11 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to starting partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From ea404bc22cad9a73cc006d76902b254e2529f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 09/21] fix: report a failed seek when reading a header

The error was ignored and the header was read from wherever the device stood.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From 50337cb563c72b232087d069b0a41eede3ba8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 10/21] fix: update_partitions must not shrink the partition
 table

Replacing the partitions of a disk with more than 128 entries reset the table
to the number of partitions, without change_partition_count being set.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 53067c1..4433e7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -820,7 +820,11 @@ where
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        // an existing table is never made smaller
+        let num_parts = match self.try_header() {
+            Ok(header) => header.num_parts.max(self.partitions.len() as u32),
+            Err(_) => self.partitions.len() as u32,
+        };
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-- 
2.43.0


From f645ab866ee5ae10eac670b77843d656512df780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 11/21] fix: count the entries when deciding if the table has
 to grow

Ids beyond the table size do not occupy one of its slots, so a table could end
up with more partitions than slots and write() failed after it had already
overwritten a part of the table.
---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4433e7f..ca29d54 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -546,7 +546,9 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
-                let num_parts_changes = self.header().num_parts_would_change(partition_id);
+                let num_parts_changes = self
+                    .header()
+                    .num_parts_would_change(partition_id.max(self.num_entries_with(partition_id)));
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -627,7 +629,9 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
-            let num_parts_changes = self.header().num_parts_would_change(id);
+            let num_parts_changes = self
+                .header()
+                .num_parts_would_change(id.max(self.num_entries_with(id)));
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -816,6 +820,16 @@ where
         self.init_headers()
     }
 
+    /// The number of entries there will be once the given id exists
+    fn num_entries_with(&self, id: u32) -> u32 {
+        let num_entries = self.partitions.len() as u32;
+        if self.partitions.contains_key(&id) {
+            num_entries
+        } else {
+            num_entries.saturating_add(1)
+        }
+    }
+
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
-- 
2.43.0


From 0a893f2764a9a1528ac144fd5f8613b5ebed0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 12/21] fix: keep the disk unchanged when the table can not
 grow

add_partition, add_partition_at and update_partitions changed the partitions
before the headers could be recomputed, so an error left more partitions than
the table has slots.
---
 src/lib.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ca29d54..b138011 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -546,9 +546,10 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
+                let num_entries = self.num_entries_with(partition_id);
                 let num_parts_changes = self
                     .header()
-                    .num_parts_would_change(partition_id.max(self.num_entries_with(partition_id)));
+                    .num_parts_would_change(partition_id.max(num_entries));
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -561,12 +562,12 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
-                    debug!("Replacing\n{}\nwith\n{}", p, part);
-                }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    self.init_headers(num_entries)?;
+                }
+                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                    debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 return Ok(partition_id);
             }
@@ -629,9 +630,10 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
+            let num_entries = self.num_entries_with(id);
             let num_parts_changes = self
                 .header()
-                .num_parts_would_change(id.max(self.num_entries_with(id)));
+                .num_parts_would_change(id.max(num_entries));
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -646,13 +648,13 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
-                debug!("Replacing\n{}\nwith\n{}", p, part);
-            }
-
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                self.init_headers(num_entries)?;
+            }
+
+            if let Some(p) = self.partitions.insert(id, part.clone()) {
+                debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             return Ok(id);
@@ -815,9 +817,10 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
     }
 
     /// The number of entries there will be once the given id exists
@@ -832,12 +835,14 @@ where
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    ///
+    /// If this fails nothing has changed.
+    pub(crate) fn init_headers(&mut self, num_entries: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         // an existing table is never made smaller
         let num_parts = match self.try_header() {
-            Ok(header) => header.num_parts.max(self.partitions.len() as u32),
-            Err(_) => self.partitions.len() as u32,
+            Ok(header) => header.num_parts.max(num_entries),
+            Err(_) => num_entries,
         };
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
@@ -846,14 +851,14 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-        let header = self.primary_header.insert_ok(h1);
 
         if !self.config.readonly_backup {
-            let h2 = header::HeaderBuilder::from_header(header)
+            let h2 = header::HeaderBuilder::from_header(&h1)
                 .primary(false)
                 .build(self.config.lb_size)?;
             self.backup_header = Ok(h2);
         }
+        self.primary_header = Ok(h1);
 
         Ok(())
     }
-- 
2.43.0


From 7b7023eeacc881586db3633c8127bec4a3bd7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 13/21] fix: find_free_sectors for overlapping and out of range
 partitions

The boundaries of all partitions were sorted and paired up, which gave wrong
sections as soon as two partitions overlap or one is not inside the usable
range, and panicked on underflow for values from a foreign header.
---
 src/lib.rs | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b138011..44e6c99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -720,34 +720,44 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        // the used sections (first lba, last lba)
+        let mut used = Vec::new();
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
                 part.1.first_lba,
                 part.1.last_lba
             );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
+            used.push((
+                part.1.first_lba.min(part.1.last_lba),
+                part.1.first_lba.max(part.1.last_lba),
+            ));
         }
-        disk_positions.push(header.last_usable + 1);
         trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        used.sort_unstable();
+
+        let mut free = Vec::new();
+        // everything before this lba is used, lba0 is never free since it contains the mbr
+        let mut next = header.first_usable.max(1);
+        for (first, last) in used {
+            if next > header.last_usable {
+                break;
+            }
+            // free up to the next used section or the end of the usable space
+            if first > next {
+                let end = (first - 1).min(header.last_usable);
+                free.push((next, end - next + 1));
+            }
+            if last == u64::MAX {
+                return free;
+            }
+            next = next.max(last + 1);
+        }
+        if next <= header.last_usable {
+            free.push((next, header.last_usable - next + 1));
+        }
+
+        free
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From d80d09c0c44a04c36b3d4b90f87b6d7dae6e64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 14/21] fix: reject headers which belong to another lba

The specification requires to check MyLBA. Without it the header was accepted
and the next write went to whichever block it names, possibly into a partition.
---
 src/header/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index a322aa2..1c5b8af 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -45,6 +45,8 @@ pub enum HeaderError {
     Overflow(&'static str),
     /// The Disk is to small to hold a backup header
     ToSmallForBackup,
+    /// The header says that it belongs to another lba than the one it was read from
+    WrongLba,
 }
 
 impl HeaderError {
@@ -58,6 +60,7 @@ impl HeaderError {
             Self::WritingToWrongLba => Self::WritingToWrongLba,
             Self::Overflow(m) => Self::Overflow(m),
             Self::ToSmallForBackup => Self::ToSmallForBackup,
+            Self::WrongLba => Self::WrongLba,
         }
     }
 }
@@ -87,7 +90,8 @@ impl fmt::Display for HeaderError {
                 "you trying to write to the wrong lba (example calling write_primary instead of write_backup)"
             },
             Overflow(m) => return write!(fmt, "Header error Overflow: {m}"),
-            ToSmallForBackup => "the disk is to small to hold a backup header"
+            ToSmallForBackup => "the disk is to small to hold a backup header",
+            WrongLba => "the header belongs to another lba than the one it was read from",
         };
         write!(fmt, "{desc}")
     }
@@ -299,7 +303,7 @@ pub(crate) fn read_primary_header<D: Read + Seek>(
 ) -> Result<Header, HeaderError> {
     let cur = file.stream_position().unwrap_or(0);
     let offset: u64 = sector_size.into();
-    let res = file_read_header(file, offset);
+    let res = file_read_header(file, 1, offset);
     let _ = file.seek(SeekFrom::Start(cur));
     res
 }
@@ -313,13 +317,14 @@ pub(crate) fn read_backup_header<D: Read + Seek>(
     let offset = h2sect
         .checked_mul(sector_size.into())
         .ok_or(HeaderError::Overflow("backup header overflow - offset"))?;
-    let res = file_read_header(file, offset);
+    let res = file_read_header(file, h2sect, offset);
     let _ = file.seek(SeekFrom::Start(cur));
     res
 }
 
 pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
+    lba: u64,
     offset: u64,
 ) -> Result<Header, HeaderError> {
     let _ = file.seek(SeekFrom::Start(offset))?;
@@ -366,11 +371,15 @@ pub(crate) fn file_read_header<D: Read + Seek>(
 
     let c = calculate_crc32(bytes.as_slice());
     trace!("header CRC32: {:#x} - computed CRC32: {:#x}", h.crc32, c);
-    if c == h.crc32 {
-        Ok(h)
-    } else {
-        Err(HeaderError::InvalidCRC32Checksum)
+    if c != h.crc32 {
+        return Err(HeaderError::InvalidCRC32Checksum);
     }
+    // the next write would go to the lba the header names
+    if h.current_lba != lba {
+        return Err(HeaderError::WrongLba);
+    }
+
+    Ok(h)
 }
 
 /// get the backup position in lba
-- 
2.43.0


From d4d777f94858a721b96a94e39a7b584cdec0e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 15/21] fix: partitions which end at the last 64 bit block
 overflowed

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 44e6c99..a340112 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -541,7 +541,7 @@ where
                     partition_id,
                     part_type,
                     starting_lba,
-                    starting_lba + size_lba - 1_u64
+                    starting_lba + (size_lba - 1)
                 );
 
                 // let's try to increase the num parts
@@ -558,7 +558,7 @@ where
                     part_type_guid: part_type,
                     part_guid: uuid::Uuid::new_v4(),
                     first_lba: starting_lba,
-                    last_lba: starting_lba + size_lba - 1_u64,
+                    last_lba: starting_lba + (size_lba - 1),
                     flags,
                     name: name.to_string(),
                 };
@@ -625,7 +625,7 @@ where
                 id,
                 part_type,
                 first_lba,
-                first_lba + length_lba - 1_u64
+                first_lba + (length_lba - 1)
             );
 
             // let's try to increase the num parts
@@ -643,7 +643,7 @@ where
                 part_type_guid: part_type,
                 part_guid: uuid::Uuid::new_v4(),
                 first_lba,
-                last_lba: first_lba + length_lba - 1_u64,
+                last_lba: first_lba + (length_lba - 1),
                 flags,
                 name: name.to_string(),
             };
-- 
2.43.0


From 6a6153e69f42ce9523922159bd8bd32a1a400aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 16/21] fix: never place the primary header in lba 0

---
 src/header/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 2b882cc..f499107 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -123,6 +123,10 @@ impl HeaderBuilder {
     /// - backup_lba
     pub fn build(&mut self, lb_size: LogicalBlockSize) -> Result<Header, HeaderError> {
         // validate data
+        // lba0 is reserved for the mbr
+        if self.primary_lba == 0 {
+            return Err(HeaderError::WritingToWrongLba);
+        }
         if self.backup_lba < self.primary_lba {
             return Err(HeaderError::MissingBackupLba);
         }
-- 
2.43.0


From 694219991dec18a1fd43de715190ccf7e89764eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 17/21] fix: write the primary header only to lba 1

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a340112..6939514 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -915,6 +915,10 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
+        // the primary header is only ever searched in lba 1
+        if primary_header.current_lba != 1 {
+            return Err(HeaderError::WritingToWrongLba.into());
+        }
         let primary_header = self.primary_header.insert_ok(primary_header);
 
         let backup_header = if !self.config.readonly_backup {
-- 
2.43.0


From 72a94dc3f5bc6abf241fa38fb5a5a675dcf074b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 18/21] fix: move the backup header when the device got larger,
 refuse to write if it got smaller

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6939514..48a5a93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -911,10 +911,20 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         trace!("old backup lba: {}", bak);
 
-        let primary_header = header::HeaderBuilder::from_header(self.header())
+        let mut primary_header = header::HeaderBuilder::from_header(self.header())
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
+        // the backup header is only ever searched in the last lba, so it has to move
+        // if the device got larger
+        if !self.config.readonly_backup && primary_header.backup_lba != bak {
+            if primary_header.backup_lba > bak {
+                return Err(HeaderError::ToSmallForBackup.into());
+            }
+            primary_header = header::HeaderBuilder::from_header(&primary_header)
+                .backup_lba(bak)
+                .build(self.config.lb_size)?;
+        }
         // the primary header is only ever searched in lba 1
         if primary_header.current_lba != 1 {
             return Err(HeaderError::WritingToWrongLba.into());
-- 
2.43.0


From 3c37e6477f77c21aace20a4d0d43549a7e743093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 19/21] fix: the count of empty partition entries overflowed on
 huge tables

---
 src/partition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index f14218d..6b8dc14 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -272,7 +272,7 @@ pub fn file_read_partitions<D: Read + Seek>(
     }
 
     trace!("scanning {} partitions", header.num_parts);
-    let mut empty_parts = 0;
+    let mut empty_parts = 0_u64;
     let empty_bytes = [0u8; 128];
     for i in 0..header.num_parts {
         let mut bytes = empty_bytes;
-- 
2.43.0


From 6956af1fe2f825705b1005f7638a2f24ae84fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 20/21] fix: label partition types parsed from any guid
 spelling

---
 src/macros.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..c70a9cc 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,7 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                Ok(u) => Ok(u.into()),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0


From 156fc078dd84b9373af43f83d0b6fb45377cf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 21/21] fix: never write a partition table past the end of the
 device

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 48a5a93..d3f9cd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -631,9 +631,7 @@ where
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
             let num_entries = self.num_entries_with(id);
-            let num_parts_changes = self
-                .header()
-                .num_parts_would_change(id.max(num_entries));
+            let num_parts_changes = self.header().num_parts_would_change(id.max(num_entries));
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -929,6 +927,11 @@ where
         if primary_header.current_lba != 1 {
             return Err(HeaderError::WritingToWrongLba.into());
         }
+        // never make the device larger (the primary table starts at lba 2)
+        let table_len = u64::from(primary_header.num_parts) * u64::from(primary_header.part_size);
+        if table_len > (bak - 1) * self.config.lb_size.as_u64() {
+            return Err(GptError::NotEnoughSpace);
+        }
         let primary_header = self.primary_header.insert_ok(primary_header);
 
         let backup_header = if !self.config.readonly_backup {
-- 
2.43.0


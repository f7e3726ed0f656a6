From 53134c21a0293e0bf646877e2efbadf32273a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 01/22] fix: keep ReadCacheRange delimited reads inside the
 range

The delimiter was accepted when it was the byte just after the range.
---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..0d0c275 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -201,15 +201,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From 2a04fa7247e07b62d9c3622eef20a80b061bc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 02/22] fix: respect the range end for cached delimited reads

A string cached by an earlier read was returned even if it extended past
the end of the requested range.
---
 src/read/read_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index 0d0c275..89918a9 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -158,6 +158,10 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
                 }
             }
         };
+        // The cached string may have been read using a larger range.
+        if buf.len() as u64 >= range.end - range.start {
+            return Err(());
+        }
         // Extend the lifetime to that of self.
         // This is OK because we never mutate or remove entries.
         Ok(unsafe { mem::transmute::<&[u8], &[u8]>(buf) })
-- 
2.43.0


From 4913d5b68ea53af53fc778e35d126379b7b4b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 03/22] fix: Mach-O big-endian relocation symbol number packing

RelocationInfo::relocation shifted r_symbolnum in the wrong direction for
big-endian, so RelocationInfo did not round trip.
---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From 81becdb28b89f7b1067a4c8f3da4a1e5b2dbaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 04/22] fix: XCOFF bss and tbss sections have no file data

---
 src/read/xcoff/section.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..446f7ca 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -313,8 +313,18 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
     }
 
     /// Return the offset and size of the section in the file.
+    ///
+    /// Returns `None` for sections that have no data in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
-        Some((self.s_scnptr().into(), self.s_size().into()))
+        if self
+            .s_flags()
+            .typ()
+            .intersects(xcoff::STYP_BSS | xcoff::STYP_TBSS)
+        {
+            None
+        } else {
+            Some((self.s_scnptr().into(), self.s_size().into()))
+        }
     }
 
     /// Return the section data.
-- 
2.43.0


From 6fad6eee13686a010f9d3a3001b7d41b29e78953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 05/22] fix: read compressed Mach-O section data from the file
 that holds the section

---
 src/read/macho/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/section.rs b/src/read/macho/section.rs
index e0a0578..c59a9f3 100644
--- a/src/read/macho/section.rs
+++ b/src/read/macho/section.rs
@@ -181,7 +181,7 @@ where
     }
 
     fn compressed_data(&self) -> read::Result<CompressedData<'data>> {
-        self.compressed_file_range()?.data(self.file.data.0)
+        self.compressed_file_range()?.data(self.internal.data)
     }
 
     #[inline]
-- 
2.43.0


From 5235788d1ba03143a39b3a88cfca3ae76981cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 06/22] fix: apply the subtractor symbol in RelocationMap

---
 src/read/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index fdb4ae1..c27098a 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1182,6 +1182,12 @@ impl RelocationMap {
                 return Err(Error("Unsupported relocation type"));
             }
         }
+        if let Some(subtractor_idx) = relocation.subtractor() {
+            let subtractor = file
+                .symbol_by_index(subtractor_idx)
+                .read_error("Relocation with invalid subtractor symbol")?;
+            entry.addend = entry.addend.wrapping_sub(subtractor.address());
+        }
         if relocation.encoding() != RelocationEncoding::Generic {
             return Err(Error("Unsupported relocation encoding"));
         }
-- 
2.43.0


From 0199701ca67cc122c829ade1786736941dd13be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 07/22] fix: never merge an empty string table entry with
 nothing

The first string in sort order was compared against an empty 'previous' string, so a lone
empty string was given the offset before the start of the table (underflowing for base 0).
---
 src/write/string.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/write/string.rs b/src/write/string.rs
index 0eb2b4a..56a8cdb 100644
--- a/src/write/string.rs
+++ b/src/write/string.rs
@@ -140,18 +140,18 @@ impl<'a> StringTable<'a> {
 
         self.offsets = vec![0; ids.len()];
         let mut offset = u64::from(base);
-        let mut previous = &[][..];
+        let mut previous: Option<&[u8]> = None;
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
             let len = string.len() as u64 + 1;
-            if previous.ends_with(string) {
+            if previous.is_some_and(|previous| previous.ends_with(string)) {
                 self.offsets[id] = (offset - len) as u32;
             } else {
                 self.offsets[id] = offset as u32;
                 w.write_bytes(string);
                 w.write_bytes(&[0]);
                 offset += len;
-                previous = string;
+                previous = Some(string);
             }
         }
         u32::try_from(offset).map_err(|_| Error("string table size overflow".into()))
@@ -174,12 +174,12 @@ impl<'a> StringTable<'a> {
         sort(&mut ids, 1, &self.strings);
 
         let mut size = base as u64;
-        let mut previous = &[][..];
+        let mut previous: Option<&[u8]> = None;
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
-            if !previous.ends_with(string) {
+            if !previous.is_some_and(|previous| previous.ends_with(string)) {
                 size += string.len() as u64 + 1;
-                previous = string;
+                previous = Some(string);
             }
         }
         size
-- 
2.43.0


From 7809e87531a72ebc4dcea285537116341b163c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 08/22] fix: a GNU hash bloom shift of 32 or more finds no
 symbol

The shift count comes from the file, and shifting a u32 by 32 or more
panics in debug builds.
---
 src/read/elf/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..21a2e4c 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,7 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        if filter & (1 << (hash.checked_shr(self.bloom_shift)? % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From 7d112778c5e69d40f1d8bc81eff0aea67be6db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 09/22] fix: calculate the GNU hash bloom filter offset in 64
 bits

The product of the filter index and the word size overflows a u32 for
a bloom filter of 4 GiB or more.
---
 src/read/elf/hash.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 21a2e4c..9e68500 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -194,16 +194,16 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if bloom_count == 0 {
             return None;
         }
-        let offset =
-            ((hash / word_bits) & (bloom_count as u32 - 1)) * mem::size_of::<Elf::Word>() as u32;
+        let offset = u64::from((hash / word_bits) & (bloom_count as u32 - 1))
+            * mem::size_of::<Elf::Word>() as u64;
         let filter = if word_bits == 64 {
             self.bloom_filters
-                .read_at::<U64<Elf::Endian>>(offset.into())
+                .read_at::<U64<Elf::Endian>>(offset)
                 .ok()?
                 .get(endian)
         } else {
             self.bloom_filters
-                .read_at::<U32<Elf::Endian>>(offset.into())
+                .read_at::<U32<Elf::Endian>>(offset)
                 .ok()?
                 .get(endian)
                 .into()
-- 
2.43.0


From 5b3c0b5bed57f78ebec408c013da7b353fe34203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 10/22] fix: don't overflow the shift for a zero delta mask in
 dyld cache slide info v2

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..b8b40a1 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift is 64 if the mask is 0.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From 0086d3aad6d6a6ae58703b140a0b932050447d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 11/22] fix: return mapping relative offsets for dyld cache
 slide info v2 relocations

---
 src/read/macho/dyld_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index b8b40a1..88d9819 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -707,7 +707,8 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            // The addition was checked above.
+                            offset: self.page_offset + offset,
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From 68f1ef970e690ea18fbaf8391865d25eeab08120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 12/22] fix: ELF write_gnu_verdef must not count the verdaux
 that the encoder writes

---
 src/write/elf/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..b81f867 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,8 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        // The first verdaux is written by `Encoder::gnu_verdef`.
+        self.gnu_verdaux_remaining = verdef.aux_count.saturating_sub(1);
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From 30ed6fb0815ce20cb7c7f875be4187a09f444d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 13/22] fix: relative relocation section headers have type
 SHT_RELR

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..656e0c7 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From 85888343dbfaa4cb2d4f5aa83eeac08ad6a85ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 14/22] fix: COFF section headers keep number_of_linenumbers

---
 src/write/coff/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..e9138bd 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -174,7 +174,7 @@ impl<'a> Writer<'a> {
             } else {
                 (section.number_of_relocations as u16).into()
             },
-            number_of_linenumbers: 0.into(),
+            number_of_linenumbers: section.number_of_linenumbers.into(),
             characteristics: section.characteristics.into(),
         };
         match section.name {
-- 
2.43.0


From e329d1b3dd3b90d83d41b65018d9e15f317e7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 15/22] fix: XCOFF writer keeps the size of uninitialized
 sections

---
 src/write/xcoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..633b1c6 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,7 +257,7 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -407,7 +407,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +423,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From 5345a3f063325f855495197810fc6bcf34e5beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 16/22] fix: keep the end of a segment's ranges when its start
 moves down

---
 src/build/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..893236e 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2430,7 +2430,11 @@ impl<'data> Segment<'data> {
             self.p_paddr = section.sh_addr;
             self.p_memsz = section.sh_size;
         } else {
+            // Keep the end of each range when its start moves down.
             if self.p_offset > section.sh_offset {
+                if self.p_filesz != 0 {
+                    self.p_filesz += self.p_offset - section.sh_offset;
+                }
                 self.p_offset = section.sh_offset;
             }
             let filesz = section.sh_offset + section_filesize - self.p_offset;
@@ -2438,6 +2442,7 @@ impl<'data> Segment<'data> {
                 self.p_filesz = filesz;
             }
             if self.p_vaddr > section.sh_addr {
+                self.p_memsz += self.p_vaddr - section.sh_addr;
                 self.p_vaddr = section.sh_addr;
                 self.p_paddr = section.sh_addr;
             }
-- 
2.43.0


From b56496040265bdc622b5c3acdfa5641ed3c93ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:27 +0000
Subject: [PATCH 17/22] fix: build: count symbols with a section as defined

---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 893236e..298c51a 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2871,7 +2871,7 @@ impl<'data, const DYNAMIC: bool> Symbols<'data, DYNAMIC> {
     /// Number of defined symbols.
     pub fn count_defined(&self) -> usize {
         self.into_iter()
-            .filter(|symbol| symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
             .count()
     }
 
-- 
2.43.0


From 3ec639a8e12298d28d2b83b3f69735c1f9b93cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:29 +0000
Subject: [PATCH 18/22] fix: build: read ELF files without sections

---
 src/build/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 298c51a..526a0b7 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -118,9 +118,14 @@ impl<'data> Builder<'data> {
         let header = Elf::parse(data)?;
         let endian = header.endian()?;
         let is_mips64el = header.is_mips64el(endian);
-        let section_strings_index = header.section_strings_index(endian, data)?;
         let segments = header.program_headers(endian, data)?;
         let sections = header.sections(endian, data)?;
+        // A file without sections has no section name string table.
+        let section_strings_index = if sections.is_empty() {
+            read::SectionIndex(0)
+        } else {
+            header.section_strings_index(endian, data)?
+        };
         let symbols = sections.symbols(endian, data, elf::SHT_SYMTAB)?;
         let dynamic_symbols = sections.symbols(endian, data, elf::SHT_DYNSYM)?;
 
-- 
2.43.0


From 12e5e3d84ead522b22f75ea13b181fa0823e848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 19/22] fix: build: an ELF section alignment of 0 is no
 constraint

---
 src/build/elf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 526a0b7..89ec2f2 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -768,7 +768,8 @@ impl<'data> Builder<'data> {
         struct Offset(u64);
         impl Offset {
             fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
+                // An alignment of 0 means no alignment constraint.
+                self.0 = write::align(self.0, align.max(1));
                 let offset = self.0;
                 self.0 += size;
                 (offset, size)
@@ -2404,7 +2405,12 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            // An alignment of 0 means no alignment constraint.
+            let align = if section.sh_addralign == 0 {
+                1
+            } else {
+                section.sh_addralign
+            };
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
-- 
2.43.0


From 07f4e86bf243b938e02320b2aea50745834dde8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 20/22] fix: build: drop Mach-O relocations of deleted sections
 by their ID

---
 src/build/macho.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..f13bdfc 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1151,10 +1151,9 @@ impl<'data> Builder<'data> {
     /// Delete relocations that refer to deleted symbols.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
+        // Indexed by section ID, so this must include the deleted sections.
+        let sections = (0..self.sections.len())
+            .map(|index| self.sections.get(SectionId(index)).delete)
             .collect::<Vec<bool>>();
         for section in &mut self.sections {
             section
-- 
2.43.0


From f160b8e82d34a9a416c081ad583b7756678cb999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 21/22] fix: build: find written Mach-O segments by their
 output index

---
 src/build/macho.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index f13bdfc..96b7e17 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -621,7 +621,10 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => {
+                    let out_index = out_segments_index[id.0].unwrap();
+                    encoder.segment_command_size(out_segments[out_index].nsects)
+                }
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -807,7 +810,7 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let out_segment = &mut out_segments[out_segments_index[id.0].unwrap()];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -845,7 +848,7 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From c81501fb5ef58c5077ea6fd07daf817035ca7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 22/22] fix: build: refuse Mach-O files with more than one
 symbol table

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 96b7e17..b0087dc 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -152,6 +152,9 @@ impl<'data> Builder<'data> {
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
                 LoadCommandVariant::Symtab(symtab) => {
+                    if state.symbols_len != 0 {
+                        return Err(Error::new("Duplicate symtab load command"));
+                    }
                     state.symbols_len = symtab.nsyms.get(endian) as usize;
                 }
                 LoadCommandVariant::Dysymtab(dysymtab) => {
-- 
2.43.0


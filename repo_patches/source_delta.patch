From 8fbe7bef7be927264cd9e31f9d9df88d5b661cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 01/16] fix: end the SoC vendor attribute iterator and start it
 at sub-leaf 4

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..98bd4f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5892,11 +5892,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From 66387246ae5b125b39d68cdf403832d39f64d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 02/16] fix: do not panic on reserved extended topology level
 types

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98bd4f0..cb38618 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4433,7 +4433,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // Reserved
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From 495ee00aefb4b2b68af192a0df68c35336628d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 03/16] fix: do not overflow in CacheParameter::sets

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb38618..9f0cc22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2833,7 +2833,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 7b8acded72b21232f4a0089194150f5b5e2d94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 04/16] fix: do not overflow in
 ProcessorTopologyInfo::threads_per_core

---
 src/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..231a821 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1723,7 +1723,7 @@ impl ProcessorTopologyInfo {
     /// # Note
     /// `Threads per Core` means `Cores per Compute Unit` if AMD Family 15h-16h Processors.
     pub fn threads_per_core(&self) -> u8 {
-        get_bits(self.ebx, 8, 15) as u8 + 1
+        (get_bits(self.ebx, 8, 15) as u8).saturating_add(1)
     }
 
     /// Node ID
-- 
2.43.0


From 22ece742f9586f27a3f7b6c19e7287bbdd4f6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 05/16] fix: do not overflow in FeatureInfo::family_id

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f0cc22..c93fed5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1965,7 +1965,7 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            base_family_id.saturating_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From 49257372e7b9115e4efee65e5b5a67bb69d92736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 06/16] fix: keep the MAWAU bits so that mawau_value is not
 always zero

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c93fed5..494fcca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4131,7 +4131,8 @@ bitflags! {
         /// Bit 16: Supports 57-bit linear addresses and five-level paging if 1.
         const LA57 = 1 << 16;
 
-        // Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        /// Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        const MAWAU = 0b1_1111 << 17;
 
         /// Bit 22: RDPID. RDPID and IA32_TSC_AUX are available if 1.
         const RDPID = 1 << 22;
-- 
2.43.0


From 251a6ef5983447c2030528e8757b121005c64439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 07/16] fix: skip unknown leaf 2 descriptors and registers
 marked invalid

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 494fcca..d055c44 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1234,19 +1234,21 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        if byte == 0 {
-            self.current += 1;
+        self.current += 1;
+
+        // A register holds no descriptors if its most significant bit is set.
+        if byte == 0 || reg & (1 << 31) != 0 {
             return self.next();
         }
 
         for cache_info in CACHE_INFO_TABLE.iter() {
             if cache_info.num == byte {
-                self.current += 1;
                 return Some(*cache_info);
             }
         }
 
-        None
+        // Skip descriptors we do not know.
+        self.next()
     }
 }
 
-- 
2.43.0


From 27526bb565dc70d2bc86d7aef6833b94f15235cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 08/16] fix: add leaf 2 descriptors missing from
 CACHE_INFO_TABLE

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d055c44..e7736d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1429,7 +1429,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1486,6 +1486,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1638,6 +1642,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1738,6 +1746,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1782,6 +1794,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From e8e40ab8a57ccae7f365935ea6c70dd0f45f2c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 09/16] fix: report AMX_INT8, not AMX_TILE, in the AMX_INT8 row

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..dfe2b2e 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From a6e36101eb965a4463e1178d5fe6b646764e7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 10/16] fix: include the highest leaf of each range in the raw
 output

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index dfe2b2e..e2795c5 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From 10769fc546710c97ae57c0ab09ac8bbd9f0c87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 11/16] fix: do not overflow when the report computes the size
 of a cache

---
 src/display.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index e2795c5..d2dadcd 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -372,10 +372,10 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            let size = (cache.associativity() as u64)
+                .saturating_mul(cache.physical_line_partitions() as u64)
+                .saturating_mul(cache.coherency_line_size() as u64)
+                .saturating_mul(cache.sets() as u64);
 
             table2(
                 &skin,
-- 
2.43.0


From cc6e9b8d391e219a5b106736365e31ae07802301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 12/16] fix: lists of 2^32 sub-leaves end instead of
 overflowing

The address translation list never ended (or panicked where overflow is
checked) if the highest sub-leaf is reported as 0xffff_ffff; the lists
that end at an invalid sub-leaf overflowed if there is none.
---
 src/extended.rs |  2 +-
 src/lib.rs      | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index 231a821..e3da335 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2507,7 +2507,7 @@ impl<R: CpuIdReader> Iterator for ExtendedCpuTopologyIter<R> {
 
     fn next(&mut self) -> Option<ExtendedCpuTopologyLevel> {
         let res = self.read.cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level);
-        self.level += 1;
+        self.level = self.level.checked_add(1)?;
 
         let ect = ExtendedCpuTopologyLevel::new(res);
         if ect.level_type() == HierarchyLevelType::Reserved {
diff --git a/src/lib.rs b/src/lib.rs
index e7736d8..3c53645 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2708,7 +2708,7 @@ impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
             CacheType::Null => None,
             CacheType::Reserved => None,
             _ => {
-                self.current += 1;
+                self.current = self.current.checked_add(1)?;
                 Some(cp)
             }
         }
@@ -4505,7 +4505,7 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
         } else {
             self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, self.level)
         };
-        self.level += 1;
+        self.level = self.level.checked_add(1)?;
 
         let et = ExtendedTopologyLevel {
             eax: res.eax,
@@ -5358,7 +5358,7 @@ impl<R: CpuIdReader> Iterator for SgxSectionIter<R> {
 
     fn next(&mut self) -> Option<SgxSectionInfo> {
         let res = self.read.cpuid2(EAX_SGX, self.current);
-        self.current += 1;
+        self.current = self.current.checked_add(1)?;
         match get_bits(res.eax, 0, 3) {
             0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
                 eax: res.eax,
@@ -5651,7 +5651,8 @@ impl fmt::Debug for ProcessorFrequencyInfo {
 #[derive(Clone)]
 pub struct DatIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    // One past the last sub-leaf does not fit in 32 bits if `count` is `u32::MAX`.
+    current: u64,
     count: u32,
 }
 
@@ -5662,13 +5663,14 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
     fn next(&mut self) -> Option<DatInfo> {
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
-            if self.current > self.count {
+            if self.current > u64::from(self.count) {
                 return None;
             }
 
-            let res = self
-                .read
-                .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
+            let res = self.read.cpuid2(
+                EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO,
+                self.current as u32,
+            );
             self.current += 1;
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
-- 
2.43.0


From 9e2c29bb8c353e605d5daf2e79e6b876cb1a2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 13/16] fix: CacheParameter::sets() does not overflow on 32-bit
 targets

With all 32 bits of ECX set, the number of sets does not fit in a 32-bit
usize; the addition panicked (or wrapped to zero without checks).
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3c53645..4cc3597 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2851,7 +2851,8 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        self.ecx as usize + 1
+        // On 32-bit targets 2^32 sets do not fit in a usize.
+        (self.ecx as usize).saturating_add(1)
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From fa77eedb4171d1d03f3b5b0609470ce02d1ee694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 14/16] fix: vendor and brand strings on big-endian hosts

The registers hold the bytes of a string in little-endian order, so the
structures that hand out their own memory as the string have to keep the
registers in that order too. The vendor of a processor is told from its
string, so on a big-endian host a custom reader's AMD or Intel processor was
not recognised either.
---
 src/extended.rs |  5 ++++-
 src/lib.rs      | 53 ++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index e3da335..c9a0540 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -447,7 +447,10 @@ pub struct ProcessorBrandString {
 
 impl ProcessorBrandString {
     pub(crate) fn new(data: [CpuIdResult; 3]) -> Self {
-        Self { data }
+        let [r1, r2, r3] = data;
+        Self {
+            data: [r1.to_le(), r2.to_le(), r3.to_le()],
+        }
     }
 
     /// Return the processor brand string as a rust string.
diff --git a/src/lib.rs b/src/lib.rs
index 4cc3597..d2e31a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -199,11 +199,7 @@ enum Vendor {
 
 impl Vendor {
     fn from_vendor_leaf(res: CpuIdResult) -> Self {
-        let vi = VendorInfo {
-            ebx: res.ebx,
-            ecx: res.ecx,
-            edx: res.edx,
-        };
+        let vi = VendorInfo::new(res);
 
         match vi.as_str() {
             "GenuineIntel" => Vendor::Intel,
@@ -269,6 +265,17 @@ impl CpuIdResult {
     pub fn all_zero(&self) -> bool {
         self.eax == 0 && self.ebx == 0 && self.ecx == 0 && self.edx == 0
     }
+
+    /// The registers with their bytes in little-endian order (as strings are
+    /// stored), regardless of the host's endianness. Undoes itself.
+    fn to_le(self) -> Self {
+        CpuIdResult {
+            eax: self.eax.to_le(),
+            ebx: self.ebx.to_le(),
+            ecx: self.ecx.to_le(),
+            edx: self.edx.to_le(),
+        }
+    }
 }
 
 impl Debug for CpuIdResult {
@@ -383,11 +390,7 @@ impl<R: CpuIdReader> CpuId<R> {
     pub fn get_vendor_info(&self) -> Option<VendorInfo> {
         if self.leaf_is_supported(EAX_VENDOR_INFO) {
             let res = self.read.cpuid1(EAX_VENDOR_INFO);
-            Some(VendorInfo {
-                ebx: res.ebx,
-                ecx: res.ecx,
-                edx: res.edx,
-            })
+            Some(VendorInfo::new(res))
         } else {
             None
         }
@@ -1153,6 +1156,15 @@ pub struct VendorInfo {
 }
 
 impl VendorInfo {
+    fn new(res: CpuIdResult) -> Self {
+        // The bytes of the string are in memory order, whatever the host's endianness.
+        Self {
+            ebx: res.ebx.to_le(),
+            edx: res.edx.to_le(),
+            ecx: res.ecx.to_le(),
+        }
+    }
+
     /// Return vendor identification as human readable string.
     pub fn as_str(&self) -> &str {
         let brand_string_start = self as *const VendorInfo as *const u8;
@@ -5863,7 +5875,9 @@ impl<R: CpuIdReader> SoCVendorInfo<R> {
             let r1 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 1);
             let r2 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 2);
             let r3 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 3);
-            Some(SoCVendorBrand { data: [r1, r2, r3] })
+            Some(SoCVendorBrand {
+                data: [r1.to_le(), r2.to_le(), r3.to_le()],
+            })
         } else {
             None
         }
@@ -5924,7 +5938,7 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 }
 
 /// A vendor brand string as queried from the cpuid leaf.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(PartialEq, Eq)]
 #[repr(C)]
 pub struct SoCVendorBrand {
     data: [CpuIdResult; 3],
@@ -5950,6 +5964,21 @@ impl SoCVendorBrand {
     }
 }
 
+impl fmt::Debug for SoCVendorBrand {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.debug_struct("SoCVendorBrand")
+            .field(
+                "data",
+                &[
+                    self.data[0].to_le(),
+                    self.data[1].to_le(),
+                    self.data[2].to_le(),
+                ],
+            )
+            .finish()
+    }
+}
+
 impl fmt::Display for SoCVendorBrand {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", self.as_str())
-- 
2.43.0


From e1bba69c30ee0cc76d14537f6bd0bc4e2fc988be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 15/16] fix: Debug of CpuId shows the structures it left out

---
 src/extended.rs | 10 ++++++++++
 src/lib.rs      | 25 +++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/extended.rs b/src/extended.rs
index c9a0540..306496d 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2416,6 +2416,16 @@ impl<R: CpuIdReader> ExtendedCpuTopologyIter<R> {
     }
 }
 
+impl<R: CpuIdReader> Debug for ExtendedCpuTopologyIter<R> {
+    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let mut debug = f.debug_list();
+        self.clone().for_each(|ref item| {
+            debug.entry(item);
+        });
+        debug.finish()
+    }
+}
+
 /// Gives information about the current level in the cpu topology.
 #[derive(PartialEq, Eq, Debug)]
 pub struct ExtendedCpuTopologyLevel {
diff --git a/src/lib.rs b/src/lib.rs
index d2e31a1..bebe2e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1087,6 +1087,10 @@ impl<R: CpuIdReader> Debug for CpuId<R> {
                 &self.get_performance_monitoring_info(),
             )
             .field("extended_topology_info", &self.get_extended_topology_info())
+            .field(
+                "extended_topology_info_v2",
+                &self.get_extended_topology_info_v2(),
+            )
             .field("extended_state_info", &self.get_extended_state_info())
             .field("rdt_monitoring_info", &self.get_rdt_monitoring_info())
             .field("rdt_allocation_info", &self.get_rdt_allocation_info())
@@ -1127,11 +1131,32 @@ impl<R: CpuIdReader> Debug for CpuId<R> {
                 "performance_optimization_info",
                 &self.get_performance_optimization_info(),
             )
+            .field(
+                "instruction_based_sampling_capabilities",
+                &self.get_instruction_based_sampling_capabilities(),
+            )
             .field(
                 "processor_topology_info",
                 &self.get_processor_topology_info(),
             )
             .field("memory_encryption_info", &self.get_memory_encryption_info())
+            .field(
+                "pqos_extended_feature_info",
+                &self.get_pqos_extended_feature_info(),
+            )
+            .field(
+                "extended_feature_identification_2",
+                &self.get_extended_feature_identification_2(),
+            )
+            .field(
+                "extended_performance_monitoring_and_debug",
+                &self.get_extended_performance_monitoring_and_debug(),
+            )
+            .field(
+                "multi_key_encrypted_memory_capabilities",
+                &self.get_multi_key_encrypted_memory_capabilities(),
+            )
+            .field("extended_cpu_topology", &self.get_extended_cpu_topology())
             .finish()
     }
 }
-- 
2.43.0


From 6834bd3c9cccce22f7def4b2e441c3c869cd8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 16/16] fix: the list of state components stays ended however
 often it is asked

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bebe2e5..44f5015 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4827,10 +4827,10 @@ impl<R: CpuIdReader> Iterator for ExtendedStateIter<R> {
     type Item = ExtendedState;
 
     fn next(&mut self) -> Option<ExtendedState> {
-        self.level += 1;
-        if self.level > 31 {
+        if self.level >= 31 {
             return None;
         }
+        self.level += 1;
 
         let bit = 1 << self.level;
         if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
-- 
2.43.0


From 0bfa89092554ba1da7e394256d0e70add9b84919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:48 +0000
Subject: [PATCH 01/22] hook: contract specification module (cfg
 pcics_contracts)

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index caef435..988bcee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![doc = include_str!("../README.md")]
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 #[cfg(test)]
 #[macro_use]
@@ -17,6 +18,19 @@ pub mod extended_capabilities;
 pub use extended_capabilities::ExtendedCapabilities;
 
 
+/// Specification functions the in-place function contracts refer to. Only there when the crate
+/// is built for the contract verifier, which names their directory in `PCICS_CONTRACTS`.
+#[cfg(pcics_contracts)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod contracts {
+    pub mod api {
+        pub use crate::{header, capabilities, extended_capabilities};
+    }
+    include!(concat!(env!("PCICS_CONTRACTS"), "/mod.rs"));
+}
+
+
 /// Device dependent region starts at 0x40 offset
 pub const DDR_OFFSET: usize = 0x40;
 /// Extended configuration space starts at 0x100 offset
-- 
2.43.0


From 3227bee2519297312383e8239a1330d28582124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:16 +0000
Subject: [PATCH 02/22] fix: stop walking the capability list when a capability
 header is not available

The pointer was left as it was, so the iterator returned the same
CapabilityError::Header forever.
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 989272a0d9b8d119bcbcde26ec73d8b83e69c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:16 +0000
Subject: [PATCH 03/22] fix: end iteration over a looped (extended) capability
 list

A next pointer that leads back to a visited capability made both
iterators endless.
---
 src/capabilities.rs          | 13 ++++++++++---
 src/extended_capabilities.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..2cfcff8 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,18 +342,25 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// How many list entries are left to visit. Pointer is a byte, so there are less different
+    /// entries than this value initially is, and only a looped list can exhaust it.
+    ttl: u8,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self { data, header, pointer: header.capabilities_pointer, ttl: u8::MAX }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        // Stop iterating if next pointer is null or list is looped
+        if self.pointer == 0 || self.ttl == 0 {
+            return None;
+        }
+        self.ttl -= 1;
+        Some(parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..4f512f6 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,19 +186,23 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// How many list entries are left to visit. Offset is 12 bits wide, so there are less different
+    /// entries than this value initially is, and only a looped list can exhaust it.
+    ttl: u16,
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self { ecs, next_capability_offset: ECS_OFFSET as u16, ttl: 0x1000 }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
     type Item = ExtendedCapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.next_capability_offset == 0 {
+        if self.next_capability_offset == 0 || self.ttl == 0 {
             return None;
         }
+        self.ttl -= 1;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 86b07ad8f795680e2a417d705e68a9777a85fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:30 +0000
Subject: [PATCH 04/22] fix: decode extended capabilities from their own offset

Capabilities whose decoder wants the extended capability header were
given the whole extended configuration space, so unless such capability
was the first one, the registers of the first one were decoded.
---
 src/extended_capabilities.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 4f512f6..5c60515 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -286,6 +286,7 @@ fn parse_ecap<'a>(
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
     *next_capability_offset = next_cap_offset;
 
+    let ecap_bytes = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -320,7 +321,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -328,7 +329,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -336,7 +337,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -357,7 +358,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -366,11 +367,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -386,7 +387,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -394,7 +395,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -410,23 +411,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From 8a37b9756b06a588029a669cb54e075eaf084aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:01 +0000
Subject: [PATCH 05/22] fix: ACS Egress Control Vector Size is 8 bits wide

---
 src/extended_capabilities/access_control_services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..a777e3e 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -124,7 +124,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From f6eef2cecf90a185c2dab0078ad7cc5739a979bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:47 +0000
Subject: [PATCH 06/22] fix: no panic on absent or out-of-range VC and Port
 Arbitration tables

---
 src/extended_capabilities/virtual_channel.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..056ffaf 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,8 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entries_number / 2);
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,11 +135,17 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entry_size_bits * entries_number / 8);
         PortArbitrationTable::new(data, entry_size_bits)
     }
+    /// Bytes of an arbitration table, empty when the table is absent (offset is zero) or does not
+    /// fit into available data
+    fn table_data(&self, offset: u8, size: usize) -> &'a [u8] {
+        (offset as usize * DQWORD)
+            .checked_sub(ECH_BYTES)
+            .and_then(|start| self.data.get(start..start + size))
+            .unwrap_or_default()
+    }
 }
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
     type Error = ExtendedCapabilityDataError;
-- 
2.43.0


From ca67567d1b48e2fbbea8d4a1340b4988a79b1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 07/22] fix: ACS Egress Control Vector covers all of its bits

---
 src/extended_capabilities/access_control_services.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index a777e3e..2db2e4d 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,8 +64,13 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let size = match self.acs_capability.egress_control_vector_size {
+            // The encoding 00h indicates 256 bits
+            0 if self.acs_capability.acs_p2p_egress_control => 256,
+            size => size as usize,
+        };
+        let dword_bits = u32::BITS as usize;
+        let end = (size + dword_bits - 1) / dword_bits * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
-- 
2.43.0


From a7552e26fa26def367a346bd203fdd5e66707cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:38 +0000
Subject: [PATCH 08/22] fix: AER TLP Prefix Log is at offset 38h

---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..c291d9f 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -207,7 +207,7 @@ impl AdvancedErrorReporting {
     /// Common registers size (exists) on any device type
     pub const COMMON_SIZE: usize = 0x2c - 0x04;
     // Root Ports and Root Complex Event Collectors registres size
-    pub const RP_AND_RCEC_SIZE: usize = 0x38 - 0x04;
+    pub const RP_AND_RCEC_SIZE: usize = 0x38 - 0x2c;
     /// Full size with TLP Prefix Log register
     pub const FULL_SIZE: usize = 0x48 - 0x04;
     /// Header log register size (4 x u32)
-- 
2.43.0


From 2148acead050f42ea7002d244134f8b82b9f39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:42 +0000
Subject: [PATCH 09/22] fix: report unreadable Enhanced Allocation second DW as
 such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From eb7afc304781e0e14504d748496d9fcc91163b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:47 +0000
Subject: [PATCH 10/22] fix: encode CardBus I/O window without panic and with
 its address capability

---
 src/header.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..156c80e 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -758,20 +758,29 @@ impl From<[u16; 4]> for IoAccessAddressRange {
     }
 impl From<IoAccessAddressRange > for [[u16;2]; 2] {
     fn from(data: IoAccessAddressRange) -> Self {
+        const MASK: u16 = IoAccessAddressRange::IO_CAP_MASK;
         match data {
             IoAccessAddressRange::Addr16Bit { base, limit } => {
-                [[base & !0b11, 0], [limit, 0]]
+                [[base & !MASK, 0], [limit & !MASK, 0]]
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
-                let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
-                let base_lower = u16::from_le_bytes([base[2], base[3]]);
-                let limit = limit.to_le_bytes();
-                let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
-                let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
-                [[base_upper, base_lower], [limit_upper, limit_lower]]
+                [
+                    [base as u16 & !MASK | 0x01, (base >> 16) as u16],
+                    [limit as u16 & !MASK, (limit >> 16) as u16],
+                ]
+            },
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                [
+                    [base_lower & !MASK | io_address_capability as u16 & MASK, base_upper],
+                    [limit_lower & !MASK, limit_upper],
+                ]
             },
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From e609c3ad2ae7b72c5b8ca4142187bea1f580e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:52 +0000
Subject: [PATCH 11/22] fix: collect every kind of base address back into
 registers without panic

---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..f025f60 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(upper) = dwords.get_mut(i + 1) {
+                        *upper = (base_address >> 32) as u32;
+                    }
+                },
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
             }
 
         }
-- 
2.43.0


From f6fdd33e6e7d1bc57d9e46125d92c1c7f823003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:07 +0000
Subject: [PATCH 12/22] fix: PCI-X Designed Maximum Cumulative Read Size in
 bytes, not in kilobytes

---
 src/capabilities/pci_x.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..27a30d2 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,8 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        // From 1 KB up to 128 KB, an ADQ is 128 bytes
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From 09a600d6c1e59502973f728c908bc5e6829b6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:47 +0000
Subject: [PATCH 13/22] fix: PCI Express completion timeout Range C starts at
 250 ms

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From ed77989d4b660d4200f7da56b7ddfdb072777be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:45 +0000
Subject: [PATCH 14/22] hook: in-place contracts on header register decoders

---
 src/header.rs                        | 8 ++++++++
 src/header/bridge_control.rs         | 1 +
 src/header/cardbus_bridge_control.rs | 1 +
 src/header/class_code.rs             | 1 +
 src/header/command.rs                | 1 +
 src/header/status.rs                 | 3 +++
 6 files changed, 15 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 156c80e..49c94ed 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -366,6 +366,7 @@ impl From<[u8; Header::TOTAL_SIZE]> for Header {
 impl TryFrom<&[u8]> for Header {
     type Error = TryFromSliceError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::header::header_slice(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         slice
             .try_into()
@@ -488,6 +489,7 @@ pub enum BridgeIoAddressRange {
     },
 }
 impl BridgeIoAddressRange {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::bridge_io(io_base, io_limit, io_base_upper_16, io_limit_upper_16)))]
     pub fn new(io_base: u8, io_limit: u8, io_base_upper_16: u16, io_limit_upper_16: u16) -> Self {
         let base_capability = io_base & 0xf;
         let base_address = io_base & !0xf;
@@ -545,6 +547,7 @@ pub enum BridgePrefetchableMemory {
     },
 }
 impl BridgePrefetchableMemory {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::bridge_prefetchable(base, limit, base_upper_32, limit_upper_32)))]
     pub fn new(base: u16, limit: u16, base_upper_32: u32, limit_upper_32: u32) -> Self {
         let base_capability = base & 0xf;
         let base_address = base & !0xf;
@@ -637,6 +640,7 @@ pub struct BuiltInSelfTest {
     pub completion_code: u8,
 }
 impl From<u8> for BuiltInSelfTest {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::bist(data)))]
     fn from(data: u8) -> Self {
         Self {
             is_capable: data & 0b1000_0000 != 0,
@@ -674,6 +678,7 @@ impl Default for InterruptPin {
 }
 
 impl From<u8> for InterruptPin {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::interrupt_pin(data)))]
     fn from(data: u8) -> Self {
         match data {
             0x00 => Self::Unused,
@@ -727,6 +732,7 @@ impl Default for IoAccessAddressRange {
 }
 
 impl From<[[u16;2]; 2]> for IoAccessAddressRange {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::cardbus_io_pairs(data)))]
     fn from(data: [[u16;2]; 2]) -> Self {
         let [[base_lower, base_upper], [limit_lower, limit_upper]] = data;
         let io_address_capability = (base_lower & Self::IO_CAP_MASK) as u8;
@@ -752,6 +758,7 @@ impl From<[[u16;2]; 2]> for IoAccessAddressRange {
     }
 }
 impl From<[u16; 4]> for IoAccessAddressRange {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::cardbus_io_flat([a,b,c,d])))]
     fn from([a,b,c,d]: [u16; 4]) -> Self {
         [[a,b],[c,d]].into()
 }
@@ -794,6 +801,7 @@ pub struct ExpansionRom {
 }
 
 impl From<u32> for ExpansionRom {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::expansion_rom(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             is_enabled,
diff --git a/src/header/bridge_control.rs b/src/header/bridge_control.rs
index c5f1794..eb83ca1 100644
--- a/src/header/bridge_control.rs
+++ b/src/header/bridge_control.rs
@@ -44,6 +44,7 @@ pub struct BridgeControl {
 }
 
 impl From<u16> for BridgeControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::bridge_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             parity_error_response_enable,
diff --git a/src/header/cardbus_bridge_control.rs b/src/header/cardbus_bridge_control.rs
index 04151f1..d192fd2 100644
--- a/src/header/cardbus_bridge_control.rs
+++ b/src/header/cardbus_bridge_control.rs
@@ -33,6 +33,7 @@ pub struct CardbusBridgeControl {
 }
 
 impl From<u16> for CardbusBridgeControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::cardbus_bridge_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             parity_error_response_enable,
diff --git a/src/header/class_code.rs b/src/header/class_code.rs
index 0675c07..9e10d5e 100644
--- a/src/header/class_code.rs
+++ b/src/header/class_code.rs
@@ -13,6 +13,7 @@ pub struct ClassCode {
 }
 
 impl From<[u8; 3]> for ClassCode {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::class_code(bytes)))]
     fn from(bytes: [u8; 3]) -> Self {
         let Le((interface, sub, base)) = P3(bytes).into();
         Self {
diff --git a/src/header/command.rs b/src/header/command.rs
index 6577aa8..cc4014c 100644
--- a/src/header/command.rs
+++ b/src/header/command.rs
@@ -22,6 +22,7 @@ pub struct Command {
 }
 
 impl From<u16> for Command {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::command(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             io_space,
diff --git a/src/header/status.rs b/src/header/status.rs
index 3726279..a2e12d8 100644
--- a/src/header/status.rs
+++ b/src/header/status.rs
@@ -31,6 +31,7 @@ pub struct Status<const T: char> {
 }
 
 impl<const T: char> From<u16> for Status<T> {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             reserved,
@@ -78,6 +79,8 @@ pub enum DevselTiming {
     Undefined,
 }
 impl From<u8> for DevselTiming {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::header::devsel(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Fast,
-- 
2.43.0


From 4cd62bdf52617f237774e47cc74aff9cf696cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 15/22] hook: in-place contracts on capability decoders

---
 src/capabilities/accelerated_graphics_port.rs  | 10 ++++++++++
 src/capabilities/advanced_features.rs          |  1 +
 src/capabilities/bridge_subsystem_vendor_id.rs |  1 +
 src/capabilities/debug_port.rs                 |  1 +
 src/capabilities/enhanced_allocation.rs        |  3 +++
 src/capabilities/flattening_portal_bridge.rs   | 11 +++++++++++
 src/capabilities/message_signaled_interrups.rs |  1 +
 src/capabilities/msi_x.rs                      |  5 +++++
 src/capabilities/pci_x.rs                      | 17 +++++++++++++++++
 src/capabilities/power_management_interface.rs |  8 ++++++++
 src/capabilities/sata.rs                       |  2 ++
 src/capabilities/slot_identification.rs        |  1 +
 src/capabilities/vendor_specific.rs            |  1 +
 src/capabilities/vital_product_data.rs         |  1 +
 14 files changed, 63 insertions(+)

diff --git a/src/capabilities/accelerated_graphics_port.rs b/src/capabilities/accelerated_graphics_port.rs
index 19e1456..fb8007d 100644
--- a/src/capabilities/accelerated_graphics_port.rs
+++ b/src/capabilities/accelerated_graphics_port.rs
@@ -123,6 +123,7 @@ pub struct AcceleratedGraphicsPort {
 impl TryFrom<&[u8]> for AcceleratedGraphicsPort {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::agp::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((identifier, status, command)),
@@ -198,6 +199,7 @@ pub struct Identifier {
 }
 
 impl From<u16> for Identifier {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::identifier(word)))]
     fn from(word: u16) -> Self {
         let Lsb((minor, major, ())) = P3::<u16, 4, 4, 8>(word).into();
         Self { minor, major }
@@ -236,6 +238,7 @@ pub struct Status {
 }
 
 impl From<u32> for Status {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             rate,
@@ -290,6 +293,7 @@ pub enum CalCycle {
 }
 
 impl From<u8> for CalCycle {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::cal_cycle(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Period4ms,
@@ -329,6 +333,7 @@ pub enum DataRateSupport {
 }
 
 impl From<u8> for DataRateSupport {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::data_rate_support(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b001 => Self::Speed4x,
@@ -377,6 +382,7 @@ pub struct Command {
 }
 
 impl From<u32> for Command {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::command(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             drate,
@@ -419,6 +425,7 @@ pub enum DataRateEnabled {
 }
 
 impl From<u8> for DataRateEnabled {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::data_rate_enabled(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b001 => Self::Speed4x,
@@ -453,6 +460,7 @@ pub struct IsochronousStatus {
     pub isoch_error_code: IsochErrorCode,
 }
 impl From<u32> for IsochronousStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::isochronous_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((isoch_error_code, (), isoch_l, isoch_y, isoch_n, maxbw, ())) =
             P7::<_, 2, 1, 3, 2, 8, 8, 8>(dword).into();
@@ -497,6 +505,7 @@ pub struct Control {
     pub gtlben: bool,
 }
 impl From<u32> for Control {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb(((), gtlben, aperenb, cal_cycle_dis, (), (), ())) =
             P7::<_, 7, 1, 1, 1, 6, 8, 8>(dword).into();
@@ -537,6 +546,7 @@ pub struct IsochronousCommand {
     pub pisoch_y: u8,
 }
 impl From<u16> for IsochronousCommand {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::agp::isochronous_command(word)))]
     fn from(word: u16) -> Self {
         let Lsb(((), pisoch_y, pisoch_n)) = P3::<_, 6, 2, 8>(word).into();
         Self { pisoch_n, pisoch_y }
diff --git a/src/capabilities/advanced_features.rs b/src/capabilities/advanced_features.rs
index 51dfc6c..db11db3 100644
--- a/src/capabilities/advanced_features.rs
+++ b/src/capabilities/advanced_features.rs
@@ -53,6 +53,7 @@ pub struct AdvancedFeatures {
 impl TryFrom<&[u8]> for AdvancedFeatures {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::af::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((length, capabilities, control, status)),
diff --git a/src/capabilities/bridge_subsystem_vendor_id.rs b/src/capabilities/bridge_subsystem_vendor_id.rs
index b1a6dbf..6e2c2a1 100644
--- a/src/capabilities/bridge_subsystem_vendor_id.rs
+++ b/src/capabilities/bridge_subsystem_vendor_id.rs
@@ -43,6 +43,7 @@ impl From<[u8; BridgeSubsystemVendorId::SIZE]> for BridgeSubsystemVendorId {
 }
 impl<'a> TryFrom<&'a [u8]> for BridgeSubsystemVendorId {
     type Error = CapabilityDataError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::bsvid::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         slice
             .get(..Self::SIZE)
diff --git a/src/capabilities/debug_port.rs b/src/capabilities/debug_port.rs
index 27888cb..acc3c9d 100644
--- a/src/capabilities/debug_port.rs
+++ b/src/capabilities/debug_port.rs
@@ -29,6 +29,7 @@ pub struct DebugPort {
 impl TryFrom<&[u8]> for DebugPort {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::debug_port::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. }: Seq<u16, _> =
             slice.le_bytes_try_into().map_err(|_| CapabilityDataError {
diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index bbe42ea..8d3e467 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -266,6 +266,8 @@ pub enum BarEquivalentIndicator {
 }
 
 impl From<u8> for BarEquivalentIndicator {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 15))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ea::bar_equivalent_indicator(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x0 => Self::Location10h,
@@ -325,6 +327,7 @@ pub enum ResourceDefinition {
 }
 
 impl From<u8> for ResourceDefinition {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ea::resource_definition(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x00 => ResourceDefinition::MemorySpaceNonPrefetchable,
diff --git a/src/capabilities/flattening_portal_bridge.rs b/src/capabilities/flattening_portal_bridge.rs
index a8c2c46..6514b5e 100644
--- a/src/capabilities/flattening_portal_bridge.rs
+++ b/src/capabilities/flattening_portal_bridge.rs
@@ -101,6 +101,7 @@ impl FlatteningPortalBridge {
 impl TryFrom<&[u8]> for FlatteningPortalBridge {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::fpb::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         slice
             .try_into()
@@ -162,6 +163,7 @@ pub struct FpbCapabilities {
 }
 
 impl From<u32> for FpbCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             fpb_rid_decode_mechanism_supported,
@@ -203,6 +205,7 @@ pub enum FpbRidVectorSizeSupported {
 }
 
 impl From<u8> for FpbRidVectorSizeSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_rid_vector_size_supported(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Size256bits,
@@ -233,6 +236,7 @@ pub enum FpbMemLowVectorSizeSupported {
 }
 
 impl From<u8> for FpbMemLowVectorSizeSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_mem_low_vector_size_supported(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Size256bits,
@@ -265,6 +269,7 @@ pub enum FpbMemHighVectorSizeSupported {
 }
 
 impl From<u8> for FpbMemHighVectorSizeSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_mem_high_vector_size_supported(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Size256bits,
@@ -319,6 +324,7 @@ pub enum FpbRidVectorGranularity {
 }
 
 impl From<u8> for FpbRidVectorGranularity {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_rid_vector_granularity(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::Granularity8RIDs,
@@ -370,6 +376,7 @@ pub enum FpbMemLowVectorGranularity {
 }
 
 impl From<u8> for FpbMemLowVectorGranularity {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_mem_low_vector_granularity(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::Granularity1MB,
@@ -430,6 +437,7 @@ pub enum FpbMemHighVectorGranularity {
 }
 
 impl From<u8> for FpbMemHighVectorGranularity {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_mem_high_vector_granularity(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::Granularity256MB,
@@ -455,6 +463,7 @@ pub struct FpbVectorAccessControl {
 }
 
 impl From<u32> for FpbVectorAccessControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_vector_access_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((fpb_vector_access_offset, (), select, ())) = P4::<_, 8, 6, 2, 16>(dword).into();
         Self {
@@ -478,6 +487,8 @@ pub enum FpbVectorSelect {
 }
 
 impl From<u8> for FpbVectorSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::fpb::fpb_vector_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Rid,
diff --git a/src/capabilities/message_signaled_interrups.rs b/src/capabilities/message_signaled_interrups.rs
index 0304eb0..acfae8e 100644
--- a/src/capabilities/message_signaled_interrups.rs
+++ b/src/capabilities/message_signaled_interrups.rs
@@ -48,6 +48,7 @@ pub struct MessageSignaledInterrups {
 }
 impl<'a> TryFrom<&'a [u8]> for MessageSignaledInterrups {
     type Error = MessageSignaledInterrupsError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::msi::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let mc = slice
             .get(..MessageControl::SIZE)
diff --git a/src/capabilities/msi_x.rs b/src/capabilities/msi_x.rs
index f64eef4..b1bef43 100644
--- a/src/capabilities/msi_x.rs
+++ b/src/capabilities/msi_x.rs
@@ -35,6 +35,7 @@ impl From<[u8; MsiX::SIZE]> for MsiX {
 }
 impl<'a> TryFrom<&'a [u8]> for MsiX {
     type Error = CapabilityDataError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::msi_x::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         slice
             .get(..Self::SIZE)
@@ -58,6 +59,7 @@ pub struct MessageControl {
     pub msi_x_enable: bool,
 }
 impl From<u16> for MessageControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::msi_x::message_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((table_size, (), function_mask, msi_x_enable)) = P4::<_, 11, 3, 1, 1>(word).into();
         Self {
@@ -81,6 +83,7 @@ pub enum Bir {
     Reserved(u8),
 }
 impl From<u8> for Bir {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::msi_x::bir(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0 => Self::Bar10h,
@@ -103,6 +106,7 @@ pub struct Table {
     pub offset: u32,
 }
 impl From<u32> for Table {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::msi_x::table(word)))]
     fn from(word: u32) -> Self {
         let Lsb((bir, offset)) = P2::<_, 3, 29>(word).into();
         let _: u32 = offset;
@@ -122,6 +126,7 @@ pub struct PendingBitArray {
     pub offset: u32,
 }
 impl From<u32> for PendingBitArray {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::msi_x::pending_bit_array(word)))]
     fn from(word: u32) -> Self {
         let Lsb((bir, offset)) = P2::<_, 3, 29>(word).into();
         let _: u32 = offset;
diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index 27a30d2..448ca65 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -189,6 +189,7 @@ pub struct PciX {
 impl TryFrom<&[u8]> for PciX {
     type Error = PciXError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::pci_x::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((command, status)),
@@ -249,6 +250,7 @@ pub struct Command {
 }
 
 impl From<u16> for Command {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::command(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             uncorrectable_data_error_recovery_enable,
@@ -331,6 +333,7 @@ pub struct Status {
 }
 
 impl From<u32> for Status {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             function_number,
@@ -379,6 +382,7 @@ pub enum DeviceComplexity {
     Bridge,
 }
 impl From<bool> for DeviceComplexity {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::device_complexity(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::Bridge
@@ -452,6 +456,7 @@ pub struct EccControlAndStatus {
     pub ecc_mode: bool,
 }
 impl From<u32> for EccControlAndStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::ecc_control_and_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             select_secondary_ecc_registers,
@@ -506,6 +511,8 @@ pub enum EccErrorPhase {
     Reserved,
 }
 impl From<u8> for EccErrorPhase {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::ecc_error_phase(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0 => Self::NoError,
@@ -542,6 +549,7 @@ pub struct Syndrome {
 }
 
 impl From<u8> for Syndrome {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::syndrome(byte)))]
     fn from(byte: u8) -> Self {
         let Lsb((e0, e1, e2, e3, e4, e5, e6, e7)) = P8::<_, 1, 1, 1, 1, 1, 1, 1, 1>(byte).into();
         Self {
@@ -581,6 +589,7 @@ pub struct PciXBridge {
 impl TryFrom<&[u8]> for PciXBridge {
     type Error = PciXBridgeError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::pci_x::bridge_decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head:
@@ -703,6 +712,7 @@ impl SecondaryStatus {
 }
 
 impl From<u16> for SecondaryStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::secondary_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             device_64_bit,
@@ -747,6 +757,8 @@ pub enum SecondaryBusMode {
 }
 
 impl From<u8> for SecondaryBusMode {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 15))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::secondary_bus_mode(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x0 => Self::Conventional,
@@ -768,6 +780,8 @@ pub enum ErrorProtection {
 }
 
 impl From<u8> for ErrorProtection {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 15))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::error_protection(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x0..=0x3 => Self::Parity,
@@ -793,6 +807,8 @@ pub enum SecondaryBusFrequency {
 }
 
 impl From<u8> for SecondaryBusFrequency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 15))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::secondary_bus_frequency(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x0 => Self::NotAvailable,
@@ -836,6 +852,7 @@ pub struct BridgeStatus {
 }
 
 impl From<u32> for BridgeStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pci_x::bridge_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             function_number,
diff --git a/src/capabilities/power_management_interface.rs b/src/capabilities/power_management_interface.rs
index 6713ca0..d0ea7c7 100644
--- a/src/capabilities/power_management_interface.rs
+++ b/src/capabilities/power_management_interface.rs
@@ -89,6 +89,7 @@ impl PowerManagementInterface {
 impl TryFrom<&[u8]> for PowerManagementInterface {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::pm::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((capabilities, control, bridge, data)),
@@ -201,6 +202,8 @@ pub enum AuxCurrent {
     MaxCurrent375mA,
 }
 impl From<u8> for AuxCurrent {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pm::aux_current(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0 => Self::SelfPowered,
@@ -256,6 +259,8 @@ pub enum PowerState {
     D3Hot,
 }
 impl From<u8> for PowerState {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pm::power_state(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::D0,
@@ -317,6 +322,7 @@ pub enum DataSelect {
     Reserved(u8),
 }
 impl From<u8> for DataSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pm::data_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0 => Self::PowerConsumedD0,
@@ -361,6 +367,8 @@ pub enum DataScale {
     Thousandth,
 }
 impl From<u8> for DataScale {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pm::data_scale(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Unknown,
diff --git a/src/capabilities/sata.rs b/src/capabilities/sata.rs
index 9cdfcaa..b2653ea 100644
--- a/src/capabilities/sata.rs
+++ b/src/capabilities/sata.rs
@@ -42,6 +42,7 @@ pub struct Sata {
 impl TryFrom<&[u8]> for Sata {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::sata::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((revision, rsvd, sata_cap1)),
@@ -92,6 +93,7 @@ pub enum BarLocation {
     Reserved(u8),
 }
 impl From<u8> for BarLocation {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::small::sata::bar_location(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0100 => Self::Bar0,
diff --git a/src/capabilities/slot_identification.rs b/src/capabilities/slot_identification.rs
index 747a62d..7c6e5b6 100644
--- a/src/capabilities/slot_identification.rs
+++ b/src/capabilities/slot_identification.rs
@@ -40,6 +40,7 @@ pub struct SlotIdentification {
 impl<'a> TryFrom<&'a [u8]> for SlotIdentification {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::slot_id::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((expansion_slot, chassis_number)),
diff --git a/src/capabilities/vendor_specific.rs b/src/capabilities/vendor_specific.rs
index 1d35a50..ea265bc 100644
--- a/src/capabilities/vendor_specific.rs
+++ b/src/capabilities/vendor_specific.rs
@@ -120,6 +120,7 @@ impl Virtio {
 }
 impl<'a> TryFrom<&'a [u8]> for Virtio {
     type Error = VendorSpecificError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::vendor::virtio_decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Virtio, Self::Error> {
         let bytes = slice.get(..Virtio::SIZE)
             .and_then(|slice| <[u8;Virtio::SIZE]>::try_from(slice).ok())
diff --git a/src/capabilities/vital_product_data.rs b/src/capabilities/vital_product_data.rs
index c3314b9..1992610 100644
--- a/src/capabilities/vital_product_data.rs
+++ b/src/capabilities/vital_product_data.rs
@@ -40,6 +40,7 @@ pub struct VitalProductData {
 impl TryFrom<&[u8]> for VitalProductData {
     type Error = CapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::small::vpd::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((word, vpd_data)),
-- 
2.43.0


From 5ddc28f26b3d7c5c2ab110dbe7c947fcccd41db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 16/22] hook: in-place contracts on HyperTransport and PCI
 Express decoders

---
 src/capabilities/hypertransport.rs | 10 +++++
 src/capabilities/pci_express.rs    | 62 ++++++++++++++++++++++++++++++
 2 files changed, 72 insertions(+)

diff --git a/src/capabilities/hypertransport.rs b/src/capabilities/hypertransport.rs
index ee019aa..e7ae870 100644
--- a/src/capabilities/hypertransport.rs
+++ b/src/capabilities/hypertransport.rs
@@ -95,6 +95,7 @@ pub enum Hypertransport {
 impl<'a> TryFrom<&'a [u8]> for Hypertransport {
     type Error = HypertransportError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::ht::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let cmd = slice
             .get(..2)
@@ -298,6 +299,7 @@ pub struct SlaveOrPrimaryCommand {
 }
 
 impl From<u16> for SlaveOrPrimaryCommand {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::slave_or_primary_command(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             base_unitid,
@@ -348,6 +350,7 @@ pub struct LinkControl {
 }
 
 impl From<u16> for LinkControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::link_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             source_id_enable,
@@ -403,6 +406,7 @@ pub struct LinkConfiguration {
 }
 
 impl From<u16> for LinkConfiguration {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::link_configuration(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             max_link_width_in,
@@ -447,6 +451,7 @@ pub enum LinkWidth {
     Reserved(u8),
 }
 impl From<u8> for LinkWidth {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::link_width(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Width8bits,
@@ -474,6 +479,7 @@ impl RevisionId {
     pub const SIZE: usize = 1;
 }
 impl From<u8> for RevisionId {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::revision_id(byte)))]
     fn from(byte: u8) -> Self {
         let Lsb((minor, major)) = P2::<_, 5, 3>(byte).into();
         Self { minor, major }
@@ -577,6 +583,7 @@ pub struct LinkFrequencyCapability {
 }
 
 impl From<u16> for LinkFrequencyCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::link_frequency_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             supports_200mhz,
@@ -640,6 +647,7 @@ pub struct FeatureCapability {
 }
 
 impl From<u16> for FeatureCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::feature_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             isochronous_flow_control_mode,
@@ -705,6 +713,7 @@ pub struct ErrorHandling {
 }
 
 impl From<u16> for ErrorHandling {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::error_handling(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             protocol_error_flood_enable,
@@ -844,6 +853,7 @@ pub struct HostOrSecondaryCommand {
 }
 
 impl From<u16> for HostOrSecondaryCommand {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::ht::host_or_secondary_command(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             warm_reset,
diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index ccb9f9d..a0f0c27 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -257,6 +257,7 @@ impl PciExpress {
 }
 impl<'a> TryFrom<&'a [u8]> for PciExpress {
     type Error = PciExpressError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::cap::pcie::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         // The PCI Express Capabilities, Device Capabilities, Device Status, and Device Control
         // registers are required for all PCI Express device Functions
@@ -509,6 +510,7 @@ pub struct DeviceCapabilities {
     pub function_level_reset_capability: bool,
 }
 impl From<u32> for DeviceCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::device_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let (
             mpss,
@@ -563,6 +565,8 @@ pub enum MaxSize {
     Reserved1,
 }
 impl From<u8> for MaxSize {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::max_size(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::B128,
@@ -594,6 +598,8 @@ pub enum PhantomFunctionsSupported {
     AllBits,
 }
 impl From<u8> for PhantomFunctionsSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::phantom_functions_supported(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NoBits,
@@ -614,6 +620,7 @@ pub enum ExtendedTagFieldSupported {
     Eight,
 }
 impl From<bool> for ExtendedTagFieldSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::extended_tag_field_supported(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::Eight
@@ -645,6 +652,8 @@ pub enum EndpointL0sAcceptableLatency {
     NoLimit,
 }
 impl From<u8> for EndpointL0sAcceptableLatency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::endpoint_l0s_acceptable_latency(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Max64ns,
@@ -682,6 +691,8 @@ pub enum EndpointL1AcceptableLatency {
     NoLimit,
 }
 impl From<u8> for EndpointL1AcceptableLatency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::endpoint_l1_acceptable_latency(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Max1us,
@@ -765,6 +776,7 @@ pub struct DeviceControl {
     pub bcre_or_flreset: bool,
 }
 impl From<u16> for DeviceControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::device_control(word)))]
     fn from(word: u16) -> Self {
         let (
             correctable_error_reporting_enable,
@@ -819,6 +831,7 @@ pub struct DeviceStatus {
     pub transactions_pending: bool,
 }
 impl From<u16> for DeviceStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::device_status(word)))]
     fn from(word: u16) -> Self {
         let (
             correctable_error_detected,
@@ -881,6 +894,7 @@ pub struct LinkCapabilities {
     pub port_number: u8,
 }
 impl From<u32> for LinkCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let (
             mls,
@@ -934,6 +948,7 @@ pub enum LinkSpeed {
     Reserved(u8),
 }
 impl From<u8> for LinkSpeed {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_speed(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0001 => Self::Rate2GTps,
@@ -975,6 +990,7 @@ pub enum LinkWidth {
     X32,
 }
 impl From<u8> for LinkWidth {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_width(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00_0001 => Self::X1,
@@ -1012,6 +1028,8 @@ pub enum ActiveStatePowerManagement {
     L0sAndL1,
 }
 impl From<u8> for ActiveStatePowerManagement {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::active_state_power_management(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NoAspm,
@@ -1044,6 +1062,8 @@ pub enum L0sExitLatency {
     Gt4ns,
 }
 impl From<u8> for L0sExitLatency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::l0s_exit_latency(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Lt64ns,
@@ -1080,6 +1100,8 @@ pub enum L1ExitLatency {
     Gt64ns,
 }
 impl From<u8> for L1ExitLatency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::l1_exit_latency(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Lt1us,
@@ -1119,6 +1141,7 @@ pub struct LinkControl {
     pub link_autonomous_bandwidth_interrupt_enable: bool,
 }
 impl From<u16> for LinkControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_control(word)))]
     fn from(word: u16) -> Self {
         let (
             aspmc,
@@ -1155,6 +1178,7 @@ pub enum ReadCompletionBoundary {
     B128 = 128,
 }
 impl From<bool> for ReadCompletionBoundary {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::read_completion_boundary(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::B128
@@ -1185,6 +1209,7 @@ pub struct LinkStatus {
     pub link_autonomous_bandwidth_status: bool,
 }
 impl From<u16> for LinkStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_status(word)))]
     fn from(word: u16) -> Self {
         let (
             cls,
@@ -1255,6 +1280,7 @@ pub struct SlotCapabilities {
     pub physical_slot_number: u16,
 }
 impl From<u32> for SlotCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::slot_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let (
             attention_button_present,
@@ -1312,6 +1338,7 @@ pub struct SlotControl {
     pub data_link_layer_state_changed_enable: bool,
 }
 impl From<u16> for SlotControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::slot_control(word)))]
     fn from(word: u16) -> Self {
         let (
             attention_button_pressed_enable,
@@ -1352,6 +1379,8 @@ pub enum IndicatorControl {
     Off,
 }
 impl From<u8> for IndicatorControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::indicator_control(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Reserved,
@@ -1385,6 +1414,7 @@ pub struct SlotStatus {
     pub data_link_layer_state_changed: bool,
 }
 impl From<u16> for SlotStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::slot_status(word)))]
     fn from(word: u16) -> Self {
         let (
             attention_button_pressed,
@@ -1445,6 +1475,7 @@ pub struct RootControl {
     pub crs_software_visibility_enable: bool,
 }
 impl From<u16> for RootControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::root_control(word)))]
     fn from(word: u16) -> Self {
         let (
             system_error_on_correctable_error_enable,
@@ -1471,6 +1502,7 @@ pub struct RootCapabilities {
     pub crs_software_visibility: bool,
 }
 impl From<u16> for RootCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::root_capabilities(word)))]
     fn from(word: u16) -> Self {
         let (crs_software_visibility, ()) = P2::<_, 1, 15>(word).lsb_into();
         Self {
@@ -1490,6 +1522,7 @@ pub struct RootStatus {
     pub pme_pending: bool,
 }
 impl From<u32> for RootStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::root_status(dword)))]
     fn from(dword: u32) -> Self {
         let (pme_requester_id, pme_status, pme_pending, ()) =
             P4::<_, 16, 1, 1, 14>(dword).lsb_into();
@@ -1561,6 +1594,7 @@ pub struct DeviceCapabilities2 {
     pub frs_supported: bool,
 }
 impl From<u32> for DeviceCapabilities2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::device_capabilities2(dword)))]
     fn from(dword: u32) -> Self {
         let (
             ctrs,
@@ -1641,6 +1675,7 @@ impl CompletionTimeoutRanges {
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::completion_timeout_ranges(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::NotSupported,
@@ -1684,6 +1719,8 @@ pub enum TphCompleter {
     TphAndExtendedTph,
 }
 impl From<u8> for TphCompleter {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::tph_completer(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotSupported,
@@ -1719,6 +1756,8 @@ pub enum LnSystemCls {
     Reserved,
 }
 impl From<u8> for LnSystemCls {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::ln_system_cls(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotSupported,
@@ -1753,6 +1792,8 @@ pub enum Obff {
     WakeAndMessage,
 }
 impl From<u8> for Obff {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::obff(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotSupported,
@@ -1787,6 +1828,8 @@ pub enum MaxEndEndTlpPrefixes {
     Max3,
 }
 impl From<u8> for MaxEndEndTlpPrefixes {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::max_end_end_tlp_prefixes(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Max4,
@@ -1823,6 +1866,8 @@ pub enum EmergencyPowerReduction {
     Reserved,
 }
 impl From<u8> for EmergencyPowerReduction {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::emergency_power_reduction(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotSupported,
@@ -1873,6 +1918,7 @@ pub struct DeviceControl2 {
     pub end_end_tlp_prefix_blocking: EndEndTlpPrefixBlocking,
 }
 impl From<u16> for DeviceControl2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::device_control2(word)))]
     fn from(word: u16) -> Self {
         let (
             ctv,
@@ -1928,6 +1974,7 @@ pub enum CompletionTimeoutValue {
     Reserved(u8),
 }
 impl From<u8> for CompletionTimeoutValue {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::completion_timeout_value(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::DefaultRange50usTo50ms,
@@ -1972,6 +2019,8 @@ pub enum ObffEnable {
     WakeSignaling,
 }
 impl From<u8> for ObffEnable {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::obff_enable(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Disabled,
@@ -2013,6 +2062,7 @@ pub enum EndEndTlpPrefixBlocking {
     ForwardingBlocked,
 }
 impl From<bool> for EndEndTlpPrefixBlocking {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::end_end_tlp_prefix_blocking(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::ForwardingBlocked
@@ -2065,6 +2115,7 @@ pub struct LinkCapabilities2 {
     pub drs_supported: bool,
 }
 impl From<u32> for LinkCapabilities2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_capabilities2(dword)))]
     fn from(dword: u32) -> Self {
         let (
             (),
@@ -2108,6 +2159,8 @@ pub struct SupportedLinkSpeedsVector {
     pub reserved: bool,
 }
 impl From<u8> for SupportedLinkSpeedsVector {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 127))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::supported_link_speeds_vector(byte)))]
     fn from(byte: u8) -> Self {
         let (
             speed_2_5_gtps,
@@ -2149,6 +2202,7 @@ pub struct LinkControl2 {
     pub compliance_preset_or_de_emphasis: CompliancePresetOrDeEmphasis,
 }
 impl From<u16> for LinkControl2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_control2(word)))]
     fn from(word: u16) -> Self {
         let (
             tls,
@@ -2182,6 +2236,7 @@ pub enum DeEmphasis {
     Minus6dB,
 }
 impl From<bool> for DeEmphasis {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::de_emphasis(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::Minus3_5dB
@@ -2244,6 +2299,7 @@ pub struct LinkStatus2 {
     pub drs_message_received: bool,
 }
 impl From<u16> for LinkStatus2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::link_status2(word)))]
     fn from(word: u16) -> Self {
         let (
             cdel,
@@ -2288,6 +2344,8 @@ pub enum CrosslinkResolution {
     NotCompleted,
 }
 impl From<u8> for CrosslinkResolution {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::crosslink_resolution(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotSupported,
@@ -2317,6 +2375,7 @@ pub enum DownstreamComponentPresence {
     Reserved(u8),
 }
 impl From<u8> for DownstreamComponentPresence {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::downstream_component_presence(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::DownNotDetermined,
@@ -2395,6 +2454,7 @@ pub enum TransmitterPreset {
     Reserved(u8),
 }
 impl From<u8> for TransmitterPreset {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::transmitter_preset(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::P0,
@@ -2426,6 +2486,8 @@ pub enum ReceiverPresetHint {
     Reserved = 0,
 }
 impl From<u8> for ReceiverPresetHint {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::cap::pcie::receiver_preset_hint(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Minus6dB,
-- 
2.43.0


From 2aa8dcb0420c28f961f63daee78d0ba2bab0494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 17/22] fix: encode MaxLatency to u16 with the Latency
 Tolerance Reporting layout it is decoded with

---
 src/extended_capabilities/l1_pm_substates.rs             | 3 ++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..cb29a8f 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,8 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 14772dbd8522547b4c2eb40e047df9e80ea5cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 18/22] hook: in-place contracts on extended capability
 decoders

---
 src/extended_capabilities/access_control_services.rs  |  3 +++
 .../address_translation_services.rs                   |  3 +++
 src/extended_capabilities/advanced_error_reporting.rs |  6 ++++++
 .../alternative_routing_id_interpolation.rs           |  3 +++
 src/extended_capabilities/dynamic_power_allocation.rs |  8 ++++++++
 src/extended_capabilities/l1_pm_substates.rs          |  3 +++
 .../latency_tolerance_reporting.rs                    |  2 ++
 .../multifunction_virtual_channel.rs                  |  6 ++++++
 src/extended_capabilities/page_request_interface.rs   |  1 +
 src/extended_capabilities/power_budgeting.rs          |  9 +++++++++
 .../precision_time_measurement.rs                     |  3 +++
 src/extended_capabilities/process_address_space_id.rs |  3 +++
 src/extended_capabilities/readiness_time_reporting.rs |  2 ++
 .../single_root_io_virtualization.rs                  |  4 ++++
 src/extended_capabilities/virtual_channel.rs          | 11 +++++++++++
 15 files changed, 67 insertions(+)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index 2db2e4d..84a129e 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -78,6 +78,7 @@ impl<'a> AccessControlServices<'a> {
 impl<'a> TryFrom<&'a [u8]> for AccessControlServices<'a> {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::acs::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((acs_capability, acs_control)),
@@ -118,6 +119,7 @@ pub struct AcsCapability {
 }
 
 impl From<u16> for AcsCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::acs::acs_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             acs_source_validation,
@@ -163,6 +165,7 @@ pub struct AcsControl {
 }
 
 impl From<u16> for AcsControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::acs::acs_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             acs_source_validation_enable,
diff --git a/src/extended_capabilities/address_translation_services.rs b/src/extended_capabilities/address_translation_services.rs
index 5f7e1b0..67a47df 100644
--- a/src/extended_capabilities/address_translation_services.rs
+++ b/src/extended_capabilities/address_translation_services.rs
@@ -46,6 +46,7 @@ pub struct AddressTranslationServices {
 impl TryFrom<&[u8]> for AddressTranslationServices {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::ats::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((ats_capability, ats_control)),
@@ -75,6 +76,7 @@ pub struct AtsCapability {
 }
 
 impl From<u16> for AtsCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ats::ats_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((invalidate_queue_depth, page_aligned_request, global_invalidate_supported, ())) =
             P4::<_, 5, 1, 1, 9>(word).into();
@@ -95,6 +97,7 @@ pub struct AtsControl {
 }
 
 impl From<u16> for AtsControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ats::ats_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((smallest_translation_unit, (), enable)) = P3::<_, 5, 10, 1>(word).into();
         Self {
diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index c291d9f..e508d0c 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -218,6 +218,7 @@ impl AdvancedErrorReporting {
 impl TryFrom<&[u8]> for AdvancedErrorReporting {
     type Error = AdvancedErrorReportingError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::aer::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head:
@@ -331,6 +332,7 @@ pub struct UncorrectableError {
     pub poisoned_tlp_egress_blocked_status: bool,
 }
 impl From<u32> for UncorrectableError {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::aer::uncorrectable_error(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             link_training_error,
@@ -399,6 +401,7 @@ pub struct CorrectableError {
     pub header_log_overflow_status: bool,
 }
 impl From<u32> for CorrectableError {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::aer::correctable_error(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             receiver_error_status,
@@ -450,6 +453,7 @@ pub struct AdvancedErrorCapabilitiesAndControl {
 }
 
 impl From<u32> for AdvancedErrorCapabilitiesAndControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::aer::advanced_error_capabilities_and_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             first_error_pointer,
@@ -495,6 +499,7 @@ pub struct RootErrorCommand {
 }
 
 impl From<u32> for RootErrorCommand {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::aer::root_error_command(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             correctable_error_reporting_enable,
@@ -534,6 +539,7 @@ pub struct RootErrorStatus {
 }
 
 impl From<u32> for RootErrorStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::aer::root_error_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             err_cor_received,
diff --git a/src/extended_capabilities/alternative_routing_id_interpolation.rs b/src/extended_capabilities/alternative_routing_id_interpolation.rs
index ddc3812..2b04fb2 100644
--- a/src/extended_capabilities/alternative_routing_id_interpolation.rs
+++ b/src/extended_capabilities/alternative_routing_id_interpolation.rs
@@ -53,6 +53,7 @@ pub struct AlternativeRoutingIdInterpretation {
 impl TryFrom<&[u8]> for AlternativeRoutingIdInterpretation {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::ari::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((ari_capability, ari_control)),
@@ -82,6 +83,7 @@ pub struct AriCapability {
 }
 
 impl From<u16> for AriCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ari::ari_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             mfvc_function_groups_capability,
@@ -109,6 +111,7 @@ pub struct AriControl {
 }
 
 impl From<u16> for AriControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ari::ari_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((mfvc_function_groups_enable, acs_function_groups_enable, (), function_group, ())) =
             P5::<_, 1, 1, 2, 3, 9>(word).into();
diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..19c42e9 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -83,6 +83,7 @@ pub struct DynamicPowerAllocation<'a> {
 impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
     type Error = DynamicPowerAllocationError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::dpa::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         // Skip header
         let slice = slice
@@ -128,6 +129,7 @@ pub struct DpaCapability {
 }
 
 impl From<u32> for DpaCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpa::dpa_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             substate_max,
@@ -164,6 +166,8 @@ pub enum TransitionLatencyUnit {
 }
 
 impl From<u8> for TransitionLatencyUnit {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpa::transition_latency_unit(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Unit1ms,
@@ -189,6 +193,8 @@ pub enum PowerAllocationScale {
 }
 
 impl From<u8> for PowerAllocationScale {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpa::power_allocation_scale(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Mul10,
@@ -211,6 +217,7 @@ pub struct DpaStatus {
 }
 
 impl From<u16> for DpaStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpa::dpa_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((substate_status, (), substate_control_enabled, ())) =
             P4::<_, 5, 3, 1, 7>(word).into();
@@ -228,6 +235,7 @@ pub struct DpaControl {
 }
 
 impl From<u16> for DpaControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpa::dpa_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((substate_control, ())) = P2::<_, 5, 11>(word).into();
         Self { substate_control }
diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index cb29a8f..76228c6 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -77,6 +77,7 @@ pub struct L1PmSubstates {
 impl TryFrom<&[u8]> for L1PmSubstates {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::l1pm::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head:
@@ -211,6 +212,8 @@ pub enum PortTPowerOnScale {
     Reserved = 0,
 }
 impl From<u8> for PortTPowerOnScale {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::l1pm::port_tpower_on_scale(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Time2us,
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 47277f0..b116792 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -44,6 +44,7 @@ pub struct LatencyToleranceReporting {
 impl TryFrom<&[u8]> for LatencyToleranceReporting {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::ltr::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((max_snoop_latency, max_no_snoop_latency)),
@@ -78,6 +79,7 @@ impl MaxLatency {
 }
 
 impl From<u16> for MaxLatency {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ltr::max_latency(word)))]
     fn from(word: u16) -> Self {
         let Lsb((value, scale, ())) = P3::<_, 10, 3, 3>(word).into();
         Self { value, scale }
diff --git a/src/extended_capabilities/multifunction_virtual_channel.rs b/src/extended_capabilities/multifunction_virtual_channel.rs
index 79bae47..99a70d7 100644
--- a/src/extended_capabilities/multifunction_virtual_channel.rs
+++ b/src/extended_capabilities/multifunction_virtual_channel.rs
@@ -157,6 +157,7 @@ pub struct MultifunctionVirtualChannel<'a> {
 impl<'a> TryFrom<&'a [u8]> for MultifunctionVirtualChannel<'a> {
     type Error = MultifunctionVirtualChannelError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::mfvc::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head:
@@ -237,6 +238,7 @@ pub struct PortVcCapability1 {
 }
 
 impl From<u32> for PortVcCapability1 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mfvc::port_vc_capability1(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             extended_vc_count,
@@ -376,6 +378,7 @@ pub struct VcResourceCapability {
 }
 
 impl From<u32> for VcResourceCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mfvc::vc_resource_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             hardware_fixed_arbitration,
@@ -464,6 +467,7 @@ pub struct VcResourceControl {
 }
 
 impl From<u32> for VcResourceControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mfvc::vc_resource_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             tc_to_vc_map,
@@ -531,6 +535,7 @@ impl FunctionArbitrationSelect {
     }
 }
 impl From<u8> for FunctionArbitrationSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mfvc::function_arbitration_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::HardwareFixedArbitration,
@@ -569,6 +574,7 @@ pub struct VcResourceStatus {
 }
 
 impl From<u16> for VcResourceStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mfvc::vc_resource_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((function_arbitration_table_status, vc_negotiation_pending, ())) =
             P3::<_, 1, 1, 14>(word).into();
diff --git a/src/extended_capabilities/page_request_interface.rs b/src/extended_capabilities/page_request_interface.rs
index e2a56d0..887d8b8 100644
--- a/src/extended_capabilities/page_request_interface.rs
+++ b/src/extended_capabilities/page_request_interface.rs
@@ -55,6 +55,7 @@ pub struct PageRequestInterface {
 impl TryFrom<&[u8]> for PageRequestInterface {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::pri::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head:
diff --git a/src/extended_capabilities/power_budgeting.rs b/src/extended_capabilities/power_budgeting.rs
index fae7b14..44613d5 100644
--- a/src/extended_capabilities/power_budgeting.rs
+++ b/src/extended_capabilities/power_budgeting.rs
@@ -56,6 +56,7 @@ pub struct PowerBudgeting {
 impl TryFrom<&[u8]> for PowerBudgeting {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::power_budget::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((data_select, rsvdp_0, data, power_budget_capability, rsvdp_1)),
@@ -113,6 +114,7 @@ pub enum BasePower {
     Gt300,
 }
 impl From<u8> for BasePower {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::base_power(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             v @ 0x00..=0xEF => Self::Value(v),
@@ -147,6 +149,8 @@ impl DataScale {
     }
 }
 impl From<u8> for DataScale {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::data_scale(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::One,
@@ -167,6 +171,7 @@ pub enum PmSubState {
     Specific(u8),
 }
 impl From<u8> for PmSubState {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::pm_sub_state(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Default,
@@ -184,6 +189,8 @@ pub enum PmState {
     D3,
 }
 impl From<u8> for PmState {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::pm_state(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::D0,
@@ -216,6 +223,7 @@ pub enum OperationConditionType {
     Reserved(u8),
 }
 impl From<u8> for OperationConditionType {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::operation_condition_type(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::PmeAux,
@@ -245,6 +253,7 @@ pub enum PowerRail {
     Reserved(u8),
 }
 impl From<u8> for PowerRail {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::power_budget::power_rail(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::Power12v,
diff --git a/src/extended_capabilities/precision_time_measurement.rs b/src/extended_capabilities/precision_time_measurement.rs
index 6fb0866..928c303 100644
--- a/src/extended_capabilities/precision_time_measurement.rs
+++ b/src/extended_capabilities/precision_time_measurement.rs
@@ -55,6 +55,7 @@ pub struct PrecisionTimeMeasurement {
 impl TryFrom<&[u8]> for PrecisionTimeMeasurement {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::ptm::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((ptm_capability, ptm_control)),
@@ -86,6 +87,7 @@ pub struct PtmCapability {
 }
 
 impl From<u32> for PtmCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ptm::ptm_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             ptm_requester_capable,
@@ -115,6 +117,7 @@ pub struct PtmControl {
 }
 
 impl From<u32> for PtmControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::ptm::ptm_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((ptm_enable, root_select, (), effective_granularity, ())) =
             P5::<_, 1, 1, 6, 8, 16>(dword).into();
diff --git a/src/extended_capabilities/process_address_space_id.rs b/src/extended_capabilities/process_address_space_id.rs
index 5b7d987..55d0e35 100644
--- a/src/extended_capabilities/process_address_space_id.rs
+++ b/src/extended_capabilities/process_address_space_id.rs
@@ -45,6 +45,7 @@ pub struct ProcessAddressSpaceId {
 impl TryFrom<&[u8]> for ProcessAddressSpaceId {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::pasid::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((pacid_capability, pacid_control)),
@@ -74,6 +75,7 @@ pub struct PacidCapability {
 }
 
 impl From<u16> for PacidCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pasid::pacid_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             (),
@@ -103,6 +105,7 @@ pub struct PacidControl {
 }
 
 impl From<u16> for PacidControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pasid::pacid_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((pasid_enable, execute_permission_enable, privileged_mode_enable, ())) =
             P4::<_, 1, 1, 1, 13>(word).into();
diff --git a/src/extended_capabilities/readiness_time_reporting.rs b/src/extended_capabilities/readiness_time_reporting.rs
index 58f65d2..3a58b3a 100644
--- a/src/extended_capabilities/readiness_time_reporting.rs
+++ b/src/extended_capabilities/readiness_time_reporting.rs
@@ -77,6 +77,7 @@ impl ReadinessTimeReporting {
 impl TryFrom<&[u8]> for ReadinessTimeReporting {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rtr::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         // Skip header
         let slice = slice
@@ -117,6 +118,7 @@ impl ReadinessTime {
 }
 
 impl From<u16> for ReadinessTime {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rtr::readiness_time(word)))]
     fn from(word: u16) -> Self {
         let Lsb((value, scale, ())) = P3::<_, 9, 3, 4>(word).into();
         Self { value, scale }
diff --git a/src/extended_capabilities/single_root_io_virtualization.rs b/src/extended_capabilities/single_root_io_virtualization.rs
index 94aa600..6a8c87e 100644
--- a/src/extended_capabilities/single_root_io_virtualization.rs
+++ b/src/extended_capabilities/single_root_io_virtualization.rs
@@ -87,6 +87,7 @@ impl From<[u8; SingleRootIoVirtualization::BYTES]> for SingleRootIoVirtualizatio
 
 impl<'a> TryFrom<&'a [u8]> for SingleRootIoVirtualization {
     type Error = ExtendedCapabilityDataError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::sriov::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         slice.get(..Self::BYTES)
             .and_then(|slice| <[u8; Self::BYTES]>::try_from(slice).ok())
@@ -111,6 +112,7 @@ pub struct SriovCapabilities {
     pub vf_migration_interrupt_message_number: u16,
 }
 impl From<u32> for SriovCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::sriov::sriov_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             vf_migration_capable,
@@ -148,6 +150,7 @@ pub struct SriovControl {
     pub vf_10bit_tag_requester_enable: bool,
 }
 impl From<u16> for SriovControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::sriov::sriov_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             vf_enable,
@@ -178,6 +181,7 @@ pub struct SriovStatus {
     pub vf_migration_status: bool,
 }
 impl From<u16> for SriovStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::sriov::sriov_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             vf_migration_status,
diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 056ffaf..2882234 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -150,6 +150,7 @@ impl<'a> VirtualChannel<'a> {
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::vc::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((port_vc_capability_1, port_vc_capability_2, port_vc_control, port_vc_status)),
@@ -188,6 +189,7 @@ pub struct PortVcCapability1 {
 }
 
 impl From<u32> for PortVcCapability1 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::port_vc_capability1(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             extended_vc_count,
@@ -217,6 +219,7 @@ pub enum ReferenceClock {
     Reserved(u8),
 }
 impl From<u8> for ReferenceClock {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::reference_clock(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Rc100ns,
@@ -335,6 +338,7 @@ pub struct VcResourceCapability {
 }
 
 impl From<u32> for VcResourceCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::vc_resource_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             hardware_fixed_arbitration,
@@ -451,6 +455,7 @@ pub struct VcResourceControl {
 }
 
 impl From<u32> for VcResourceControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::vc_resource_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             tc_or_vc_map,
@@ -506,6 +511,7 @@ impl PortArbitrationSelect {
     }
 }
 impl From<u8> for PortArbitrationSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::port_arbitration_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::HardwareFixedArbitration,
@@ -541,6 +547,7 @@ pub struct VcResourceStatus {
 }
 
 impl From<u16> for VcResourceStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::vc_resource_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((port_arbitration_table_status, vc_negotiation_pending, ())) =
             P3::<_, 1, 1, 14>(word).into();
@@ -563,6 +570,7 @@ pub struct PortVcCapability2 {
 }
 
 impl From<u32> for PortVcCapability2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::port_vc_capability2(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             hardware_fixed_arbitration,
@@ -671,6 +679,7 @@ pub struct PortVcControl {
 }
 
 impl From<u16> for PortVcControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::port_vc_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((load_vc_arbitration_table, vc_arbitration_select, ())) =
             P3::<_, 1, 3, 12>(word).into();
@@ -709,6 +718,7 @@ impl VcArbitrationSelect {
     }
 }
 impl From<u8> for VcArbitrationSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::vc_arbitration_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::HardwareFixedArbitration,
@@ -729,6 +739,7 @@ pub struct PortVcStatus {
 }
 
 impl From<u16> for PortVcStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::vc::port_vc_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((vc_arbitration_table_status, ())) = P2::<_, 1, 15>(word).into();
         Self {
-- 
2.43.0


From f99e212fc9bd7954fe7a8d745ef3cbeaf521ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:07 +0000
Subject: [PATCH 19/22] fix: equalization_control_lanes panicked when fewer
 lanes are readable than the link width announces

---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..146a2b0 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(&self.ecl_data[..end.min(self.ecl_data.len())])
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From 94b6383bc19ce7c99ade2fd7bd16419ba08fe1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:15 +0000
Subject: [PATCH 20/22] hook: in-place contracts on the remaining extended
 capability decoders

---
 .../configuration_access_correlation.rs       |  1 +
 .../pcie_dvsec_for_cxl_device.rs              | 20 +++++++++++++++++++
 .../device_serial_number.rs                   |  1 +
 .../downstream_port_containment.rs            |  7 +++++++
 src/extended_capabilities/frs_queuing.rs      |  5 +++++
 src/extended_capabilities/ln_requester.rs     |  3 +++
 src/extended_capabilities/multicast.rs        |  4 ++++
 .../pci_express_over_m_phy.rs                 | 10 ++++++++++
 .../protocol_multiplexing.rs                  |  5 +++++
 src/extended_capabilities/resizable_bar.rs    |  3 +++
 ...ex_event_collector_endpoint_association.rs |  1 +
 .../root_complex_internal_link_control.rs     |  4 ++++
 .../root_complex_link_declaration.rs          |  4 ++++
 .../root_complex_register_block_header.rs     |  3 +++
 .../secondary_pci_express.rs                  |  9 +++++++++
 src/extended_capabilities/tph_requester.rs    |  5 +++++
 .../vendor_specific_extended_capability.rs    |  1 +
 17 files changed, 86 insertions(+)

diff --git a/src/extended_capabilities/configuration_access_correlation.rs b/src/extended_capabilities/configuration_access_correlation.rs
index 0e16b57..3e7a8d2 100644
--- a/src/extended_capabilities/configuration_access_correlation.rs
+++ b/src/extended_capabilities/configuration_access_correlation.rs
@@ -57,6 +57,7 @@ impl From<[u8; Self::SIZE]> for ConfigurationAccessCorrelation {
 impl TryFrom<&[u8]> for ConfigurationAccessCorrelation {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::cac::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice.try_into().map_err(|_| ExtendedCapabilityDataError {
             name: "Configuration Access Correlation",
diff --git a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
index 6ce5f83..4397d02 100644
--- a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
+++ b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
@@ -203,6 +203,7 @@ impl CxlCapability {
 }
 
 impl From<u16> for CxlCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             cache_capable,
@@ -250,6 +251,8 @@ pub enum HdmCount {
 }
 
 impl From<u8> for HdmCount {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::hdm_count(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::ZeroRanges,
@@ -279,6 +282,7 @@ pub enum CxlResetTimeout {
 }
 
 impl From<u8> for CxlResetTimeout {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_reset_timeout(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::MaxTime10ms,
@@ -312,6 +316,7 @@ impl CxlControl {
 }
 
 impl From<u16> for CxlControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             cache_enable,
@@ -346,6 +351,8 @@ pub enum CacheSfCoverage {
 }
 
 impl From<u8> for CacheSfCoverage {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 31))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cache_sf_coverage(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0 => Self::NoSnoopFilter,
@@ -385,6 +392,8 @@ pub enum CacheSfGranularity {
 }
 
 impl From<u8> for CacheSfGranularity {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 7))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cache_sf_granularity(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Tracking64B,
@@ -410,6 +419,7 @@ pub enum CacheCleanEviction {
 }
 
 impl From<bool> for CacheCleanEviction {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cache_clean_eviction(b)))]
     fn from(b: bool) -> Self {
         if b {
             Self::NotNeeded
@@ -431,6 +441,7 @@ impl CxlStatus {
 }
 
 impl From<u16> for CxlStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb(((), viral_status, ())) = P3::<_, 14, 1, 1>(word).into();
         Self { viral_status }
@@ -456,6 +467,7 @@ impl CxlControl2 {
 }
 
 impl From<u16> for CxlControl2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_control2(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             disable_caching,
@@ -491,6 +503,7 @@ impl CxlStatus2 {
 }
 
 impl From<u16> for CxlStatus2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_status2(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             cache_invalid,
@@ -521,6 +534,7 @@ impl CxlLock {
 }
 
 impl From<u16> for CxlLock {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_lock(word)))]
     fn from(word: u16) -> Self {
         let Lsb((config_lock, ())) = P2::<_, 1, 15>(word).into();
         Self { config_lock }
@@ -539,6 +553,7 @@ impl CxlCapability2 {
 }
 
 impl From<u16> for CxlCapability2 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cxl_capability2(word)))]
     fn from(word: u16) -> Self {
         let Lsb((U8(cache_size_unit), (), cache_size)) = P3::<_, 4, 4, 8>(word).into();
         Self {
@@ -561,6 +576,7 @@ pub enum CacheSizeUnit {
 }
 
 impl From<u8> for CacheSizeUnit {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::cache_size_unit(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000 => Self::NotReported,
@@ -626,6 +642,7 @@ pub enum MediaType {
 }
 
 impl From<u8> for MediaType {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::media_type(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Volatile,
@@ -649,6 +666,7 @@ pub enum MemoryClass {
 }
 
 impl From<u8> for MemoryClass {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::memory_class(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::Memory,
@@ -682,6 +700,7 @@ pub enum DesiredInterleave {
 }
 
 impl From<u8> for DesiredInterleave {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::desired_interleave(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00000 => Self::NoInterleave,
@@ -710,6 +729,7 @@ pub enum MemoryActiveTimeout {
 }
 
 impl From<u8> for MemoryActiveTimeout {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::cxl::memory_active_timeout(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::MaxTime1s,
diff --git a/src/extended_capabilities/device_serial_number.rs b/src/extended_capabilities/device_serial_number.rs
index dd1b87d..53ee9ce 100644
--- a/src/extended_capabilities/device_serial_number.rs
+++ b/src/extended_capabilities/device_serial_number.rs
@@ -40,6 +40,7 @@ pub struct DeviceSerialNumber {
 impl TryFrom<&[u8]> for DeviceSerialNumber {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::dsn::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((lower_dword, upper_dword)),
diff --git a/src/extended_capabilities/downstream_port_containment.rs b/src/extended_capabilities/downstream_port_containment.rs
index 28fb18c..6ce88b1 100644
--- a/src/extended_capabilities/downstream_port_containment.rs
+++ b/src/extended_capabilities/downstream_port_containment.rs
@@ -181,6 +181,7 @@ pub struct DownstreamPortContainment {
 impl TryFrom<&[u8]> for DownstreamPortContainment {
     type Error = DownstreamPortContainmentError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::dpc::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((dpc_capability, dpc_control, dpc_status, dpc_error_source_id)),
@@ -301,6 +302,7 @@ pub struct DpcCapability {
 }
 
 impl From<u16> for DpcCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpc::dpc_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             dpc_interrupt_message_number,
@@ -342,6 +344,7 @@ pub struct DpcControl {
 }
 
 impl From<u16> for DpcControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpc::dpc_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             dpc_trigger_enable,
@@ -378,6 +381,8 @@ pub enum DpcTrigger {
     Reserved,
 }
 impl From<u8> for DpcTrigger {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(data <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpc::dpc_trigger(data)))]
     fn from(data: u8) -> Self {
         match data {
             0b00 => Self::Disabled,
@@ -404,6 +409,7 @@ pub struct DpcStatus {
 }
 
 impl From<u16> for DpcStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpc::dpc_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((
             dpc_trigger_status,
@@ -496,6 +502,7 @@ pub struct RpPio {
 }
 
 impl From<u32> for RpPio {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::dpc::rp_pio(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             cfg_ur_cpl,
diff --git a/src/extended_capabilities/frs_queuing.rs b/src/extended_capabilities/frs_queuing.rs
index 54e79a1..66517eb 100644
--- a/src/extended_capabilities/frs_queuing.rs
+++ b/src/extended_capabilities/frs_queuing.rs
@@ -75,6 +75,7 @@ impl FrsQueuing {
 impl TryFrom<&[u8]> for FrsQueuing {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::frs::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         // Skip header
         let slice = slice
@@ -115,6 +116,7 @@ impl FrsQueuingCapability {
 }
 
 impl From<u32> for FrsQueuingCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::frs::frs_queuing_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((frs_queue_max_depth, (), frs_interrupt_message_number, ())) =
             P4::<_, 12, 4, 5, 11>(dword).into();
@@ -141,6 +143,7 @@ impl FrsQueuingStatus {
 }
 
 impl From<u16> for FrsQueuingStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::frs::frs_queuing_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((frs_message_received, frs_message_overflow, ())) = P3::<_, 1, 1, 14>(word).into();
         Self {
@@ -164,6 +167,7 @@ impl FrsQueuingControl {
 }
 
 impl From<u16> for FrsQueuingControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::frs::frs_queuing_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((frs_interrupt_enable, ())) = P2::<_, 1, 15>(word).into();
         Self {
@@ -192,6 +196,7 @@ impl FrsMessageQueue {
 }
 
 impl From<u32> for FrsMessageQueue {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::frs::frs_message_queue(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((frs_message_queue_function_id, frs_message_queue_reason, frs_message_queue_depth)) =
             P3::<_, 16, 4, 12>(dword).into();
diff --git a/src/extended_capabilities/ln_requester.rs b/src/extended_capabilities/ln_requester.rs
index c7b32fd..0344c74 100644
--- a/src/extended_capabilities/ln_requester.rs
+++ b/src/extended_capabilities/ln_requester.rs
@@ -69,6 +69,7 @@ impl From<[u8; Self::SIZE]> for LnRequester {
 impl TryFrom<&[u8]> for LnRequester {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::lnr::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice.try_into().map_err(|_| ExtendedCapabilityDataError {
             name: "LN Requester",
@@ -91,6 +92,7 @@ pub struct LnrCapability {
 }
 
 impl From<u16> for LnrCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::lnr::lnr_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((lnr_64_supported, lnr_128_supported, (), lnr_registration_max, ())) =
             P5::<_, 1, 1, 6, 5, 3>(word).into();
@@ -115,6 +117,7 @@ pub struct LnrControl {
 }
 
 impl From<u16> for LnrControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::lnr::lnr_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((lnr_enable, lnr_cls, (), lnr_registration_limit, ())) =
             P5::<_, 1, 1, 6, 5, 3>(word).into();
diff --git a/src/extended_capabilities/multicast.rs b/src/extended_capabilities/multicast.rs
index 4ee890c..5f81d26 100644
--- a/src/extended_capabilities/multicast.rs
+++ b/src/extended_capabilities/multicast.rs
@@ -142,6 +142,7 @@ pub struct MulticastCapability {
 }
 
 impl From<u16> for MulticastCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::multicast::multicast_capability(word)))]
     fn from(word: u16) -> Self {
         let Lsb((mc_max_group, (), mc_window_size_requested, (), mc_ecrc_regeneration_supported)) =
             P5::<_, 6, 2, 6, 1, 1>(word).into();
@@ -163,6 +164,7 @@ pub struct MulticastControl {
 }
 
 impl From<u16> for MulticastControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::multicast::multicast_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((mc_num_group, (), mc_enable)) = P3::<_, 6, 9, 1>(word).into();
         Self {
@@ -182,6 +184,7 @@ pub struct McBaseAddress {
 }
 
 impl From<u64> for McBaseAddress {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::multicast::mc_base_address(qword)))]
     fn from(qword: u64) -> Self {
         let Lsb((mc_index_position, (), mc_base_address)) = P3::<_, 6, 6, 52>(qword).into();
         let _: u64 = mc_base_address;
@@ -201,6 +204,7 @@ pub struct McOverlayBar {
 }
 
 impl From<u64> for McOverlayBar {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::multicast::mc_overlay_bar(qword)))]
     fn from(qword: u64) -> Self {
         let Lsb((mc_overlay_size, mc_overlay_bar)) = P2::<_, 6, 58>(qword).into();
         let _: u64 = mc_overlay_bar;
diff --git a/src/extended_capabilities/pci_express_over_m_phy.rs b/src/extended_capabilities/pci_express_over_m_phy.rs
index 6e6d047..fa6ebe9 100644
--- a/src/extended_capabilities/pci_express_over_m_phy.rs
+++ b/src/extended_capabilities/pci_express_over_m_phy.rs
@@ -119,6 +119,7 @@ impl PciExpressOverMphy {
 impl TryFrom<&[u8]> for PciExpressOverMphy {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::mphy::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         // Skip header
         let slice = slice
@@ -166,6 +167,7 @@ pub struct MpcieCapabilities {
 }
 
 impl From<u32> for MpcieCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((lsc, (), configuration_software_supported, tx, rx)) =
             P5::<_, 2, 13, 1, 8, 8>(dword).into();
@@ -186,6 +188,7 @@ pub struct MpcieControl {
 }
 
 impl From<u32> for MpcieControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((tlsc, ())) = P2::<_, 2, 30>(dword).into();
         Self {
@@ -208,6 +211,7 @@ pub struct MpcieStatus {
 }
 
 impl From<u32> for MpcieStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((clss, (), mpcie_configuration_software_status, tx, rx)) =
             P5::<_, 2, 13, 1, 8, 8>(dword).into();
@@ -236,6 +240,7 @@ pub struct MpciePhyControlAddress {
 }
 
 impl From<u32> for MpciePhyControlAddress {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_phy_control_address(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((lower_addr, (), upper_addr, (), upper_addr_5, phy_location, (), read, config)) =
             P9::<_, 8, 8, 5, 3, 1, 3, 2, 1, 1>(dword).into();
@@ -264,6 +269,7 @@ pub struct MpciePhyControlData {
 }
 
 impl From<u32> for MpciePhyControlData {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_phy_control_data(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((phy_register_data, (), phy_control_error, rrap_abort_a, phy_control_pending)) =
             P5::<_, 8, 21, 1, 1, 1>(dword).into();
@@ -286,6 +292,7 @@ pub struct MpcieLinkSpeed {
 }
 
 impl From<u8> for MpcieLinkSpeed {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::mpcie_link_speed(byte)))]
     fn from(byte: u8) -> Self {
         let Lsb((hs_g1, hs_g2)) = P2::<_, 1, 1>(byte).into();
         Self { hs_g1, hs_g2 }
@@ -305,6 +312,7 @@ pub struct LaneWidthSupported {
 }
 
 impl From<u8> for LaneWidthSupported {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::lane_width_supported(byte)))]
     fn from(byte: u8) -> Self {
         let Lsb((x1, x2, x4, x8, x12, x16, x32)) = P7::<_, 1, 1, 1, 1, 1, 1, 1>(byte).into();
         Self {
@@ -333,6 +341,7 @@ pub enum LaneWidthStatus {
 }
 
 impl From<u8> for LaneWidthStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::lane_width_status(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b0000_0001 => Self::X1,
@@ -356,6 +365,7 @@ pub enum PhyLocation {
 }
 
 impl From<u8> for PhyLocation {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::mphy::phy_location(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b000 => Self::LocalPhy,
diff --git a/src/extended_capabilities/protocol_multiplexing.rs b/src/extended_capabilities/protocol_multiplexing.rs
index bf4b7b8..27d7be3 100644
--- a/src/extended_capabilities/protocol_multiplexing.rs
+++ b/src/extended_capabilities/protocol_multiplexing.rs
@@ -112,6 +112,7 @@ pub struct ProtocolMultiplexing<'a> {
 impl<'a> TryFrom<&'a [u8]> for ProtocolMultiplexing<'a> {
     type Error = ProtocolMultiplexingError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::pmux::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         // Skip header
         let slice = slice
@@ -151,6 +152,7 @@ pub struct PmuxCapability {
 }
 
 impl From<u32> for PmuxCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pmux::pmux_capability(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((pmux_protocol_array_size, (), pmux_supported_link_speeds, ())) =
             P4::<_, 6, 2, 8, 16>(dword).into();
@@ -175,6 +177,7 @@ pub struct PmuxSupportedLinkSpeeds {
 }
 
 impl From<u8> for PmuxSupportedLinkSpeeds {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pmux::pmux_supported_link_speeds(byte)))]
     fn from(byte: u8) -> Self {
         let Lsb((speed_2_5_gtps, speed_5_0_gtps, speed_8_0_gtps, speed_16_0_gtps, ())) =
             P5::<_, 1, 1, 1, 1, 4>(byte).into();
@@ -201,6 +204,7 @@ pub struct PmuxControl {
 }
 
 impl From<u32> for PmuxControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pmux::pmux_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             pmux_channel_0_assignment,
@@ -259,6 +263,7 @@ pub struct PmuxStatus {
 }
 
 impl From<u32> for PmuxStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::pmux::pmux_status(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             pmux_channel_0_disabled_link_speed,
diff --git a/src/extended_capabilities/resizable_bar.rs b/src/extended_capabilities/resizable_bar.rs
index 19a7095..38f7c98 100644
--- a/src/extended_capabilities/resizable_bar.rs
+++ b/src/extended_capabilities/resizable_bar.rs
@@ -112,6 +112,7 @@ impl<'a> Eq for ResizableBar<'a> {}
 impl<'a> TryFrom<&'a [u8]> for ResizableBar<'a> {
     type Error = ResizableBarError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rebar::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice
             .get(ExtendedCapabilityHeader::SIZE..)
@@ -183,6 +184,7 @@ pub struct ResizableBarCapability {
 }
 
 impl From<u32> for ResizableBarCapability {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rebar::resizable_bar_capability(dword)))]
     fn from(dword: u32) -> Self {
         Self {
             support_map_from_1mb_to_128tb: dword,
@@ -200,6 +202,7 @@ pub struct ResizableBarControl {
 }
 
 impl From<u32> for ResizableBarControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rebar::resizable_bar_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             bar_index,
diff --git a/src/extended_capabilities/root_complex_event_collector_endpoint_association.rs b/src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
index 57c349a..6d07477 100644
--- a/src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
+++ b/src/extended_capabilities/root_complex_event_collector_endpoint_association.rs
@@ -58,6 +58,7 @@ impl From<[u8; Self::SIZE]> for RootComplexEventCollectorEndpointAssociation {
 impl TryFrom<&[u8]> for RootComplexEventCollectorEndpointAssociation {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rcec::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice.try_into().map_err(|_| ExtendedCapabilityDataError {
             name: "Root Complex Event Collector Endpoint Association",
diff --git a/src/extended_capabilities/root_complex_internal_link_control.rs b/src/extended_capabilities/root_complex_internal_link_control.rs
index 98217ee..33665f7 100644
--- a/src/extended_capabilities/root_complex_internal_link_control.rs
+++ b/src/extended_capabilities/root_complex_internal_link_control.rs
@@ -106,6 +106,7 @@ impl From<[u8; Self::SIZE]> for RootComplexInternalLinkControl {
 impl TryFrom<&[u8]> for RootComplexInternalLinkControl {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rc_internal_link::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice.try_into().map_err(|_| ExtendedCapabilityDataError {
             name: "Root Complex Internal Link Control",
@@ -127,6 +128,7 @@ pub struct RootComplexLinkCapabilities {
 }
 
 impl From<u32> for RootComplexLinkCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_internal_link::root_complex_link_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             max_link_speed,
@@ -160,6 +162,7 @@ pub struct RootComplexLinkControl {
 }
 
 impl From<u16> for RootComplexLinkControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_internal_link::root_complex_link_control(word)))]
     fn from(word: u16) -> Self {
         let Lsb((active_state_power_management_control, (), extended_synch, ())) =
             P4::<_, 2, 5, 1, 8>(word).into();
@@ -180,6 +183,7 @@ pub struct RootComplexLinkStatus {
 }
 
 impl From<u16> for RootComplexLinkStatus {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_internal_link::root_complex_link_status(word)))]
     fn from(word: u16) -> Self {
         let Lsb((current_link_speed, negotiated_link_width, ())) = P3::<_, 4, 6, 6>(word).into();
         Self {
diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..6c0b4b8 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -125,6 +125,7 @@ pub struct RootComplexLinkDeclaration<'a> {
 }
 impl<'a> TryFrom<&'a [u8]> for RootComplexLinkDeclaration<'a> {
     type Error = RootComplexLinkDeclarationError;
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rc_link::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: element_self_description,
@@ -183,6 +184,7 @@ impl ElementSelfDescription {
     pub const BYTES: usize = 4;
 }
 impl From<u32> for ElementSelfDescription {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_link::element_self_description(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((element_type, reserved, number_of_link_entries, component_id, port_number)) =
             P5::<_, 4, 4, 8, 8, 8>(dword).into();
@@ -215,6 +217,7 @@ pub enum ElementType {
     Reserved(u8),
 }
 impl From<u8> for ElementType {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_link::element_type(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0x00 => Self::ConfigurationSpaceElement,
@@ -322,6 +325,7 @@ pub struct LinkDescription {
     pub target_port_number: u8,
 }
 impl From<u32> for LinkDescription {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rc_link::link_description(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             link_valid,
diff --git a/src/extended_capabilities/root_complex_register_block_header.rs b/src/extended_capabilities/root_complex_register_block_header.rs
index 866330e..1bf92ca 100644
--- a/src/extended_capabilities/root_complex_register_block_header.rs
+++ b/src/extended_capabilities/root_complex_register_block_header.rs
@@ -91,6 +91,7 @@ impl From<[u8; Self::SIZE]> for RootComplexRegisterBlockHeader {
 impl TryFrom<&[u8]> for RootComplexRegisterBlockHeader {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::rcrb::decode(slice, r)))]
     fn try_from(slice: &[u8]) -> Result<Self, Self::Error> {
         let Seq { head, .. } = slice.try_into().map_err(|_| ExtendedCapabilityDataError {
             name: "RCRB Header",
@@ -112,6 +113,7 @@ pub struct RcrbCapabilities {
 }
 
 impl From<u32> for RcrbCapabilities {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rcrb::rcrb_capabilities(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((crs_software_visibility, ())) = P2::<_, 1, 31>(dword).into();
         Self {
@@ -132,6 +134,7 @@ pub struct RcrbControl {
 }
 
 impl From<u32> for RcrbControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::rcrb::rcrb_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((crs_software_visibility_enable, ())) = P2::<_, 1, 31>(dword).into();
         Self {
diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 146a2b0..e6ca7b7 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -85,6 +85,7 @@ impl<'a> SecondaryPciExpress<'a> {
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::spcie::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((link_control_3, lane_error_status)),
@@ -116,6 +117,7 @@ pub struct LinkControl3 {
 }
 
 impl From<u32> for LinkControl3 {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::spcie::link_control3(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((
             perform_equalization,
@@ -186,6 +188,13 @@ pub struct LaneEqualizationControl {
 }
 
 impl From<u16> for LaneEqualizationControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::spcie::lane(
+        word,
+        &r.downstream_port_transmitter_preset,
+        &r.downstream_port_receiver_preset_hint,
+        &r.upstream_port_transmitter_preset,
+        &r.upstream_port_receiver_preset_hint,
+    )))]
     fn from(word: u16) -> Self {
         let Lsb((
             downstream_port_transmitter_preset,
diff --git a/src/extended_capabilities/tph_requester.rs b/src/extended_capabilities/tph_requester.rs
index 3ba2e24..8f143c7 100644
--- a/src/extended_capabilities/tph_requester.rs
+++ b/src/extended_capabilities/tph_requester.rs
@@ -56,6 +56,7 @@ pub struct TphRequester<'a> {
 impl<'a> TryFrom<&'a [u8]> for TphRequester<'a> {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::tph::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq {
             head: Le((tph_requester_capability, tph_requester_control)),
@@ -163,6 +164,7 @@ pub struct TphRequesterControl {
 }
 
 impl From<u32> for TphRequesterControl {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::tph::tph_requester_control(dword)))]
     fn from(dword: u32) -> Self {
         let Lsb((st_mode_select, (), tph_requester_enable, ())) =
             P4::<_, 3, 5, 2, 22>(dword).into();
@@ -186,6 +188,7 @@ pub enum StModeSelect {
     Reserved(u8),
 }
 impl From<u8> for StModeSelect {
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::tph::st_mode_select(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NoStMode,
@@ -211,6 +214,8 @@ pub enum TphRequesterEnable {
     TphAndExtendedTphPermitted,
 }
 impl From<u8> for TphRequesterEnable {
+    #[cfg_attr(all(kani, pcics_contracts), kani::requires(byte <= 3))]
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| *r == crate::contracts::ecap::tph::tph_requester_enable(byte)))]
     fn from(byte: u8) -> Self {
         match byte {
             0b00 => Self::NotPermitted,
diff --git a/src/extended_capabilities/vendor_specific_extended_capability.rs b/src/extended_capabilities/vendor_specific_extended_capability.rs
index ba2eb64..52b06a2 100644
--- a/src/extended_capabilities/vendor_specific_extended_capability.rs
+++ b/src/extended_capabilities/vendor_specific_extended_capability.rs
@@ -46,6 +46,7 @@ pub struct VendorSpecificExtendedCapability<'a> {
 impl<'a> TryFrom<&'a [u8]> for VendorSpecificExtendedCapability<'a> {
     type Error = ExtendedCapabilityDataError;
 
+    #[cfg_attr(all(kani, pcics_contracts), kani::ensures(|r| crate::contracts::ecap::vsec::decode(slice, r)))]
     fn try_from(slice: &'a [u8]) -> Result<Self, Self::Error> {
         let Seq { head: header, tail } =
             slice
-- 
2.43.0


From 93e77db177f4528d78e8a374a410d050e7d6602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:15 +0000
Subject: [PATCH 21/22] hook: iterator states of the capability list walks

---
 src/capabilities.rs          | 11 +++++++++++
 src/extended_capabilities.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 2cfcff8..a31bdae 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -351,6 +351,17 @@ impl<'a> Capabilities<'a> {
         Self { data, header, pointer: header.capabilities_pointer, ttl: u8::MAX }
     }
 }
+/// Iterator states, for the contract verifier
+#[cfg(pcics_states)]
+#[doc(hidden)]
+impl<'a> Capabilities<'a> {
+    pub fn at(data: &'a [u8], header: &'a Header, pointer: u8, ttl: u8) -> Self {
+        Self { data, header, pointer, ttl }
+    }
+    pub fn state(&self) -> (u8, u8) {
+        (self.pointer, self.ttl)
+    }
+}
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 5c60515..e8eb9d5 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -195,6 +195,17 @@ impl<'a> ExtendedCapabilities<'a> {
         Self { ecs, next_capability_offset: ECS_OFFSET as u16, ttl: 0x1000 }
     }
 }
+/// Iterator states, for the contract verifier
+#[cfg(pcics_states)]
+#[doc(hidden)]
+impl<'a> ExtendedCapabilities<'a> {
+    pub fn at(ecs: &'a [u8], next_capability_offset: u16, ttl: u16) -> Self {
+        Self { ecs, next_capability_offset, ttl }
+    }
+    pub fn state(&self) -> (u16, u16) {
+        (self.next_capability_offset, self.ttl)
+    }
+}
 impl<'a> Iterator for ExtendedCapabilities<'a> {
     type Item = ExtendedCapabilityResult<'a>;
 
-- 
2.43.0


From 07a1496ef2cf808bfd754722b9fe3516ccae44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 22/22] hook: iterator states of the remaining iterators

---
 src/capabilities/enhanced_allocation.rs       |  8 +++
 .../access_control_services.rs                | 16 ++++++
 .../multifunction_virtual_channel.rs          | 36 ++++++++++++++
 .../root_complex_link_declaration.rs          |  8 +++
 .../secondary_pci_express.rs                  |  7 +++
 src/extended_capabilities/virtual_channel.rs  | 49 +++++++++++++++++++
 6 files changed, 124 insertions(+)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 8d3e467..97c18ad 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -116,6 +116,14 @@ impl<'a> EnhancedAllocationEntries<'a> {
     }
 }
 
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> EnhancedAllocationEntries<'a> {
+    pub fn state(&self) -> (&'a [u8], u8) {
+        (self.data, self.count)
+    }
+}
+
 impl<'a> Iterator for EnhancedAllocationEntries<'a> {
     type Item = EnhancedAllocationEntry;
 
diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index 84a129e..64cf5d2 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -208,6 +208,22 @@ impl<'a> EgressControlVectors<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> EgressControlVectors<'a> {
+    pub fn at(data: &'a [u8], dword: u32, mask: u32, size: usize) -> Self {
+        let chunks = data.chunks(ECV_BYTES);
+        Self {
+            chunks,
+            dword,
+            mask,
+            size,
+        }
+    }
+    pub fn state(&self) -> (Chunks<'a, u8>, u32, u32, usize) {
+        (self.chunks.clone(), self.dword, self.mask, self.size)
+    }
+}
 impl<'a> PartialEq for EgressControlVectors<'a> {
     fn eq(&self, other: &Self) -> bool {
         self.chunks.clone().eq(other.chunks.clone())
diff --git a/src/extended_capabilities/multifunction_virtual_channel.rs b/src/extended_capabilities/multifunction_virtual_channel.rs
index 99a70d7..07f5694 100644
--- a/src/extended_capabilities/multifunction_virtual_channel.rs
+++ b/src/extended_capabilities/multifunction_virtual_channel.rs
@@ -296,6 +296,21 @@ impl<'a> ExtendedVirtualChannels<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> ExtendedVirtualChannels<'a> {
+    pub fn at(data: &'a [u8], count: u8, fat_entry_bits: usize, offset: usize) -> Self {
+        Self {
+            data,
+            count,
+            fat_entry_bits,
+            offset,
+        }
+    }
+    pub fn state(&self) -> (&'a [u8], u8, usize, usize) {
+        (self.data, self.count, self.fat_entry_bits, self.offset)
+    }
+}
 impl<'a> Iterator for ExtendedVirtualChannels<'a> {
     type Item = ExtendedVirtualChannel<'a>;
 
@@ -615,6 +630,27 @@ impl<'a> FunctionArbitrationTable<'a> {
     }
 }
 
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> FunctionArbitrationTable<'a> {
+    pub fn at(data: &'a [u8], entry_size_bits: usize, shift: usize, byte: u8) -> Self {
+        let data = data.iter();
+        Self {
+            data,
+            entry_size_bits,
+            shift,
+            byte,
+        }
+    }
+    pub fn state(&self) -> (&'a [u8], usize, usize, u8) {
+        (
+            self.data.as_slice(),
+            self.entry_size_bits,
+            self.shift,
+            self.byte,
+        )
+    }
+}
 impl<'a> Iterator for FunctionArbitrationTable<'a> {
     type Item = FunctionArbitrationTableEntry;
 
diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 6c0b4b8..fd0eb24 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -261,6 +261,14 @@ impl<'a> LinkEntries<'a> {
     }
 }
 
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> LinkEntries<'a> {
+    pub fn rest(&self) -> Chunks<'a, u8> {
+        self.chunks.clone()
+    }
+}
+
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
         self.clone().eq(other.clone())
diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index e6ca7b7..0b560d4 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -164,6 +164,13 @@ impl<'a> EqualizationControlLanes<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> EqualizationControlLanes<'a> {
+    pub fn state(&self) -> Chunks<'a, u8> {
+        self.chunks.clone()
+    }
+}
 impl<'a> Iterator for EqualizationControlLanes<'a> {
     type Item = LaneEqualizationControl;
 
diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 2882234..e808a45 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -261,6 +261,20 @@ impl<'a> ExtendedVirtualChannels<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> ExtendedVirtualChannels<'a> {
+    pub fn at(data: &'a [u8], count: u8, offset: usize) -> Self {
+        Self {
+            data,
+            count,
+            offset,
+        }
+    }
+    pub fn state(&self) -> (&'a [u8], u8, usize) {
+        (self.data, self.count, self.offset)
+    }
+}
 impl<'a> Iterator for ExtendedVirtualChannels<'a> {
     type Item = Result<ExtendedVirtualChannel, ExtendedVirtualChannelError>;
 
@@ -409,6 +423,27 @@ impl<'a> PortArbitrationTable<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> PortArbitrationTable<'a> {
+    pub fn at(data: &'a [u8], entry_size_bits: usize, shift: usize, byte: u8) -> Self {
+        let data = data.iter();
+        Self {
+            data,
+            entry_size_bits,
+            shift,
+            byte,
+        }
+    }
+    pub fn state(&self) -> (&'a [u8], usize, usize, u8) {
+        (
+            self.data.as_slice(),
+            self.entry_size_bits,
+            self.shift,
+            self.byte,
+        )
+    }
+}
 impl<'a> Iterator for PortArbitrationTable<'a> {
     type Item = PortArbitrationTableEntry;
 
@@ -624,6 +659,20 @@ impl<'a> VcArbitrationTable<'a> {
         }
     }
 }
+/// Verification hook: the states of the iterator
+#[cfg(pcics_states)]
+impl<'a> VcArbitrationTable<'a> {
+    pub fn at(data: &'a [u8], vate: Option<VcArbitrationTableEntry>) -> Self {
+        let data = data.iter();
+        Self { data, vate }
+    }
+    pub fn state(&self) -> (&'a [u8], Option<u8>) {
+        (
+            self.data.as_slice(),
+            self.vate.as_ref().map(|entry| entry.vc_id),
+        )
+    }
+}
 impl<'a> Iterator for VcArbitrationTable<'a> {
     type Item = VcArbitrationTableEntry;
 
-- 
2.43.0


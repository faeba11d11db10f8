// Capabilities of a few registers
pub mod vpd {
    use super::super::super::api::capabilities::vital_product_data::*;
    use super::super::super::{b, decoded, dw, f16, w};
    /// PCI_VPD_ADDR, PCI_VPD_DATA
    pub fn ok(d: &[u8]) -> bool { d.len() >= 6 }
    pub fn value(d: &[u8]) -> VitalProductData {
        VitalProductData { vpd_address: f16(w(d, 0), 14, 0), transfer_completed: b(w(d, 0), 15), vpd_data: dw(d, 2) }
    }
    pub fn decode<E>(d: &[u8], r: &Result<VitalProductData, E>) -> bool { decoded(ok(d), || value(d), r) }
}
pub mod slot_id {
    use super::super::super::api::capabilities::slot_identification::*;
    use super::super::super::{b, decoded, f8};
    /// PCI_SID_ESR, PCI_SID_CHASSIS_NR
    pub fn ok(d: &[u8]) -> bool { d.len() >= 2 }
    pub fn value(d: &[u8]) -> SlotIdentification {
        SlotIdentification {
            expansion_slot: ExpansionSlot { expansion_slots_provided: f8(d[0], 4, 0), first_in_chassis: b(d[0], 5) },
            chassis_number: d[1],
        }
    }
    pub fn decode<E>(d: &[u8], r: &Result<SlotIdentification, E>) -> bool { decoded(ok(d), || value(d), r) }
}
pub mod bsvid {
    use super::super::super::api::capabilities::bridge_subsystem_vendor_id::*;
    use super::super::super::{decoded, w};
    /// PCI_SSVID_VENDOR_ID, PCI_SSVID_DEVICE_ID
    pub fn ok(d: &[u8]) -> bool { d.len() >= 6 }
    pub fn value(d: &[u8]) -> BridgeSubsystemVendorId {
        BridgeSubsystemVendorId { reserved: w(d, 0), subsystem_vendor_id: w(d, 2), subsystem_id: w(d, 4) }
    }
    pub fn decode<E>(d: &[u8], r: &Result<BridgeSubsystemVendorId, E>) -> bool { decoded(ok(d), || value(d), r) }
}
pub mod debug_port {
    use super::super::super::api::capabilities::debug_port::*;
    use super::super::super::{decoded, f16, f8, w};
    /// EHCI 1.0 Appendix C: offset in 12:0, BAR number in 15:13
    pub fn ok(d: &[u8]) -> bool { d.len() >= 2 }
    pub fn value(d: &[u8]) -> DebugPort { DebugPort { offset: f16(w(d, 0), 12, 0), bar_number: f8(w(d, 0), 15, 13) } }
    pub fn decode<E>(d: &[u8], r: &Result<DebugPort, E>) -> bool { decoded(ok(d), || value(d), r) }
}
pub mod sata {
    use super::super::super::api::capabilities::sata::*;
    use super::super::super::{decoded, dw, f32, f8};
    /// AHCI 1.3.1, 2.4: SATACR0, SATACR1
    pub fn ok(d: &[u8]) -> bool { d.len() >= 6 }
    pub fn value(d: &[u8]) -> Sata {
        Sata {
            revision: Revision { minor: f8(d[0], 3, 0), major: f8(d[0], 7, 4) },
            bar_offset: BarOffset(f32(dw(d, 2), 23, 4)),
            bar_location: bar_location(f8(dw(d, 2), 3, 0)),
        }
    }
    pub fn decode<E>(d: &[u8], r: &Result<Sata, E>) -> bool { decoded(ok(d), || value(d), r) }
    pub fn bar_location(x: u8) -> BarLocation {
        match x {
            4 => BarLocation::Bar0,
            5 => BarLocation::Bar1,
            6 => BarLocation::Bar2,
            7 => BarLocation::Bar3,
            8 => BarLocation::Bar4,
            9 => BarLocation::Bar5,
            15 => BarLocation::SataCapability1,
            v => BarLocation::Reserved(v),
        }
    }
}
pub mod af {
    use super::super::super::api::capabilities::advanced_features::*;
    use super::super::super::{b, decoded};
    /// PCI_AF_LENGTH, PCI_AF_CAP, PCI_AF_CTRL, PCI_AF_STATUS
    pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
    pub fn value(d: &[u8]) -> AdvancedFeatures {
        AdvancedFeatures {
            length: d[0],
            capabilities: Capabilities { transactions_pending: b(d[1], 0), function_level_reset: b(d[1], 1) },
            control: Control { initiate_flr: b(d[2], 0) },
            status: Status { transactions_pending: b(d[3], 0) },
        }
    }
    pub fn decode<E>(d: &[u8], r: &Result<AdvancedFeatures, E>) -> bool { decoded(ok(d), || value(d), r) }
}

use super::super::api::extended_capabilities::virtual_channel::*;
use super::super::{b, dw, f8, w};

pub fn port_vc_capability1(x: u32) -> PortVcCapability1 {
    PortVcCapability1 {
        extended_vc_count: f8(x, 2, 0),
        low_priority_extended_vc_count: f8(x, 6, 4),
        reference_clock: reference_clock(f8(x, 9, 8)),
        port_arbitration_table_entry_size: port_arbitration_table_entry_size(f8(x, 11, 10)),
    }
}
pub fn reference_clock(x: u8) -> ReferenceClock {
    match x {
        0b000 => ReferenceClock::Rc100ns,
        v => ReferenceClock::Reserved(v),
    }
}
pub fn vc_resource_capability(x: u32) -> VcResourceCapability {
    VcResourceCapability {
        port_arbitration_capability: PortArbitrationCapability {
        hardware_fixed_arbitration: b(x, 0),
        wrr_32_phases: b(x, 1),
        wrr_64_phases: b(x, 2),
        wrr_128_phases: b(x, 3),
        time_based_wrr_128_phases: b(x, 4),
        wrr_256_phases: b(x, 5),
        reserved: f8(x, 7, 6),
        },
        advanced_packet_switching: b(x, 14),
        reject_snoop_transactions: b(x, 15),
        maximum_time_slots: f8(x, 22, 16),
        port_arbitration_table_offset: f8(x, 31, 24),
    }
}
pub fn vc_resource_control(x: u32) -> VcResourceControl {
    VcResourceControl {
        tc_or_vc_map: f8(x, 7, 0),
        load_port_arbitration_table: b(x, 16),
        port_arbitration_select: port_arbitration_select(f8(x, 19, 17)),
        vc_id: f8(x, 26, 24),
        vc_enable: b(x, 31),
    }
}
pub fn port_arbitration_select(x: u8) -> PortArbitrationSelect {
    match x {
        0b000 => PortArbitrationSelect::HardwareFixedArbitration,
        0b001 => PortArbitrationSelect::Wrr32phases,
        0b010 => PortArbitrationSelect::Wrr64phases,
        0b011 => PortArbitrationSelect::Wrr128phases,
        0b100 => PortArbitrationSelect::TimeBasedWrr128phases,
        0b101 => PortArbitrationSelect::Wrr256phases,
        v => PortArbitrationSelect::Reserved(v),
    }
}
pub fn vc_resource_status(x: u16) -> VcResourceStatus {
    VcResourceStatus {
        port_arbitration_table_status: b(x, 0),
        vc_negotiation_pending: b(x, 1),
    }
}
pub fn port_vc_capability2(x: u32) -> PortVcCapability2 {
    PortVcCapability2 {
        vc_arbitration_capability: VcArbitrationCapability {
        hardware_fixed_arbitration: b(x, 0),
        wrr_32_phases: b(x, 1),
        wrr_64_phases: b(x, 2),
        wrr_128_phases: b(x, 3),
        reserved: f8(x, 7, 4),
        },
        vc_arbitration_table_offset: f8(x, 31, 24),
    }
}
pub fn port_vc_control(x: u16) -> PortVcControl {
    PortVcControl {
        load_vc_arbitration_table: b(x, 0),
        vc_arbitration_select: vc_arbitration_select(f8(x, 3, 1)),
    }
}
pub fn vc_arbitration_select(x: u8) -> VcArbitrationSelect {
    match x {
        0b000 => VcArbitrationSelect::HardwareFixedArbitration,
        0b001 => VcArbitrationSelect::Wrr32phases,
        0b010 => VcArbitrationSelect::Wrr64phases,
        0b011 => VcArbitrationSelect::Wrr128phases,
        v => VcArbitrationSelect::Reserved(v),
    }
}
pub fn port_vc_status(x: u16) -> PortVcStatus {
    PortVcStatus {
        vc_arbitration_table_status: b(x, 0),
    }
}
/// The size itself is private: see `entry_bits`.
pub fn port_arbitration_table_entry_size(x: u8) -> PortArbitrationTableEntrySize { x.into() }
pub fn entry_bits(x: u8) -> usize { [1, 2, 4, 8][x as usize] }
pub fn ok(d: &[u8]) -> bool { d.len() >= 12 }
pub fn decode<E>(d: &[u8], r: &Result<VirtualChannel, E>) -> bool {
    match r {
        Err(_) => !ok(d),
        Ok(v) => ok(d)
            && v.port_vc_capability_1 == port_vc_capability1(dw(d, 0))
            && v.port_vc_capability_2 == port_vc_capability2(dw(d, 4))
            && v.port_vc_control == port_vc_control(w(d, 8))
            && v.port_vc_status == port_vc_status(w(d, 10)),
    }
}
/// The registers of one VC resource.
pub fn channel(d: &[u8], o: usize) -> ExtendedVirtualChannel {
    ExtendedVirtualChannel {
        vc_resource_capability: vc_resource_capability(dw(d, o)),
        vc_resource_control: vc_resource_control(dw(d, o + 4)),
        vc_resource_status: vc_resource_status(w(d, o + 10)),
    }
}
/// Table lengths in entries, by arbitration select.
pub fn vc_table_entries(x: u8) -> usize { [0, 32, 64, 128, 0, 0, 0, 0][x as usize] }
pub fn port_table_entries(x: u8) -> usize { [0, 32, 64, 128, 128, 256, 0, 0][x as usize] }

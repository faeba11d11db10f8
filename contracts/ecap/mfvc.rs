use super::super::api::extended_capabilities::multifunction_virtual_channel::*;
use super::super::{b, dw, f8, w};

pub fn vc_resource_capability(x: u32) -> VcResourceCapability {
    VcResourceCapability {
        function_arbitration_capability: FunctionArbitrationCapability {
        hardware_fixed_arbitration: b(x, 0),
        wrr_32_phases: b(x, 1),
        wrr_64_phases: b(x, 2),
        wrr_128_phases: b(x, 3),
        time_based_wrr_128_phases: b(x, 4),
        wrr_256_phases: b(x, 5),
        reserved: f8(x, 7, 6),
        },
        maximum_time_slots: f8(x, 22, 16),
        function_arbitration_table_offset: f8(x, 31, 24),
    }
}
pub fn vc_resource_control(x: u32) -> VcResourceControl {
    VcResourceControl {
        tc_to_vc_map: f8(x, 7, 0),
        load_function_arbitration_table: b(x, 16),
        function_arbitration_select: function_arbitration_select(f8(x, 19, 17)),
        vc_id: f8(x, 26, 24),
        vc_enable: b(x, 31),
    }
}
pub fn function_arbitration_select(x: u8) -> FunctionArbitrationSelect {
    match x {
        0b000 => FunctionArbitrationSelect::HardwareFixedArbitration,
        0b001 => FunctionArbitrationSelect::Wrr32phases,
        0b010 => FunctionArbitrationSelect::Wrr64phases,
        0b011 => FunctionArbitrationSelect::Wrr128phases,
        0b100 => FunctionArbitrationSelect::TimeBasedWrr128phases,
        0b101 => FunctionArbitrationSelect::Wrr256phases,
        v => FunctionArbitrationSelect::Reserved(v),
    }
}
pub fn vc_resource_status(x: u16) -> VcResourceStatus {
    VcResourceStatus {
        function_arbitration_table_status: b(x, 0),
        vc_negotiation_pending: b(x, 1),
    }
}
use super::vc::{port_vc_capability2, port_vc_control, port_vc_status, reference_clock, vc_table_entries};
pub fn port_vc_capability1(x: u32) -> PortVcCapability1 {
    PortVcCapability1 {
        extended_vc_count: f8(x, 2, 0),
        low_priority_extended_vc_count: f8(x, 6, 4),
        reference_clock: reference_clock(f8(x, 9, 8)),
        function_arbitration_table_entry_size: FunctionArbitrationTableEntrySize(f8(x, 11, 10)),
    }
}
/// The VC arbitration table, where there is one: its offset (16-byte units) and length.
fn table(d: &[u8]) -> (usize, usize) { (d[11] as usize * 16, vc_table_entries(f8(d[12], 3, 1)) / 2) }
/// From the extended capability header on. The table lies behind the registers, and within the data.
pub fn ok(d: &[u8]) -> bool {
    if d.len() < 16 { return false }
    let (o, n) = table(d);
    o == 0 || o >= 32 && o <= d.len() && n <= d.len() - o
}
pub fn decode(d: &[u8], r: &Result<MultifunctionVirtualChannel, MultifunctionVirtualChannelError>) -> bool {
    match r {
        Ok(v) => ok(d)
            && v.port_vc_capability_1 == port_vc_capability1(dw(d, 4))
            && v.port_vc_capability_2 == port_vc_capability2(dw(d, 8))
            && v.port_vc_control == port_vc_control(w(d, 12))
            && v.port_vc_status == port_vc_status(w(d, 14))
            && v.vc_arbitration_table.is_some() == (d[11] != 0),
        Err(MultifunctionVirtualChannelError::PortVcData) => d.len() < 16,
        Err(MultifunctionVirtualChannelError::VcArbitrationTableOffset) => d.len() >= 16 && d[11] == 1,
        Err(MultifunctionVirtualChannelError::VcArbitrationTableData) => d.len() >= 16 && d[11] >= 2 && table(d).0 > d.len(),
        Err(MultifunctionVirtualChannelError::VcArbitrationTableLength { expected, real }) =>
            !ok(d) && d.len() >= 16 && d[11] >= 2 && table(d).0 <= d.len()
                && *expected == table(d).1 && *real == d.len() - table(d).0,
        Err(_) => false,
    }
}
pub fn channel<'a>(d: &[u8], o: usize) -> ExtendedVirtualChannel<'a> {
    ExtendedVirtualChannel {
        vc_resource_capability: vc_resource_capability(dw(d, o)),
        vc_resource_control: vc_resource_control(dw(d, o + 4)),
        vc_resource_status: vc_resource_status(w(d, o + 10)),
        function_arbitration_table: None,
    }
}

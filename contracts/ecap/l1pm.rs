use super::super::api::extended_capabilities::l1_pm_substates::*;
use super::super::{b, decoded, dw, f8, f16};

pub fn port_tpower_on_scale(x: u8) -> PortTPowerOnScale {
    match x {
        0b00 => PortTPowerOnScale::Time2us,
        0b01 => PortTPowerOnScale::Time10us,
        0b10 => PortTPowerOnScale::Time100us,
        _ => PortTPowerOnScale::Reserved,
    }
}
pub fn capabilities(x: u32) -> L1PmSubstatesCapabilities {
    L1PmSubstatesCapabilities {
        pci_pm_l1_2_supported: b(x, 0),
        pci_pm_l1_1_supported: b(x, 1),
        aspm_l1_2_supported: b(x, 2),
        aspm_l1_1_supported: b(x, 3),
        l1_pm_substates_supported: b(x, 4),
        port_common_mode_restore_time: f8(x, 15, 8),
        port_t_power_on: t_power_on(f8(x, 23, 16)),
    }
}
pub fn control_1(x: u32) -> L1PmSubstatesControl1 {
    L1PmSubstatesControl1 {
        pci_pm_l1_2_enable: b(x, 0),
        pci_pm_l1_1_enable: b(x, 1),
        aspm_l1_2_enable: b(x, 2),
        aspm_l1_1_enable: b(x, 3),
        common_mode_restore_time: f8(x, 15, 8),
        ltr_l1_2_threshold: MaxLatency { value: f16(x, 25, 16), scale: f8(x, 31, 29) },
    }
}
pub fn control_2(x: u32) -> L1PmSubstatesControl2 { L1PmSubstatesControl2 { t_power_on: t_power_on(f8(x, 7, 0)) } }
pub fn t_power_on(x: u8) -> PortTPowerOn { PortTPowerOn { value: f8(x, 7, 3), scale: port_tpower_on_scale(f8(x, 1, 0)) } }
/// Microseconds
pub fn t_power_on_us(x: u8) -> Option<usize> {
    let value = f8(x, 7, 3) as usize;
    match f8(x, 1, 0) {
        0 => Some(value * 2),
        1 => Some(value * 10),
        2 => Some(value * 100),
        _ => None,
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 12 }
pub fn value(d: &[u8]) -> L1PmSubstates {
    L1PmSubstates {
        l1_pm_substates_capabilities: capabilities(dw(d, 0)),
        l1_pm_substates_control_1: control_1(dw(d, 4)),
        l1_pm_substates_control_2: control_2(dw(d, 8)),
    }
}
pub fn decode<E>(d: &[u8], r: &Result<L1PmSubstates, E>) -> bool { decoded(ok(d), || value(d), r) }

use super::super::api::extended_capabilities::root_complex_internal_link_control::*;
use super::super::{b, decoded, dw, f8, w};

pub fn root_complex_link_capabilities(x: u32) -> RootComplexLinkCapabilities {
    RootComplexLinkCapabilities {
        max_link_speed: link_speed(f8(x, 3, 0)),
        maximum_link_width: link_width(f8(x, 9, 4)),
        active_state_power_management_support: active_state_power_management(f8(x, 11, 10)),
        l0s_exit_latency: l0s_exit_latency(f8(x, 14, 12)),
        l1_exit_latency: l1_exit_latency(f8(x, 17, 15)),
        supported_link_speeds_vector: supported_link_speeds_vector(f8(x, 24, 18)),
    }
}
pub fn root_complex_link_control(x: u16) -> RootComplexLinkControl {
    RootComplexLinkControl {
        active_state_power_management_control: active_state_power_management(f8(x, 1, 0)),
        extended_synch: b(x, 7),
    }
}
pub fn root_complex_link_status(x: u16) -> RootComplexLinkStatus {
    RootComplexLinkStatus {
        current_link_speed: link_speed(f8(x, 3, 0)),
        negotiated_link_width: link_width(f8(x, 9, 4)),
    }
}
use super::super::cap::pcie::{active_state_power_management, l0s_exit_latency, l1_exit_latency, link_speed, link_width, supported_link_speeds_vector};
pub fn decode<E>(d: &[u8], r: &Result<RootComplexInternalLinkControl, E>) -> bool {
    decoded(d.len() >= 8, || RootComplexInternalLinkControl {
        root_complex_link_capabilities: root_complex_link_capabilities(dw(d, 0)),
        root_complex_link_control: root_complex_link_control(w(d, 4)),
        root_complex_link_status: root_complex_link_status(w(d, 6)),
    }, r)
}

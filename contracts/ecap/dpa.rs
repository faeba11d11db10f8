use super::super::api::extended_capabilities::dynamic_power_allocation::*;
use super::super::{b, dw, f8, same, w};

pub fn dpa_capability(x: u32) -> DpaCapability {
    DpaCapability {
        substate_max: f8(x, 4, 0),
        transition_latency_unit: transition_latency_unit(f8(x, 9, 8)),
        power_allocation_scale: power_allocation_scale(f8(x, 13, 12)),
        transition_latency_value_0: f8(x, 23, 16),
        transition_latency_value_1: f8(x, 31, 24),
    }
}
pub fn transition_latency_unit(x: u8) -> TransitionLatencyUnit {
    match x {
        0b00 => TransitionLatencyUnit::Unit1ms,
        0b01 => TransitionLatencyUnit::Unit10ms,
        0b10 => TransitionLatencyUnit::Unit100ms,
        _ => TransitionLatencyUnit::Reserved,
    }
}
pub fn power_allocation_scale(x: u8) -> PowerAllocationScale {
    match x {
        0b00 => PowerAllocationScale::Mul10,
        0b01 => PowerAllocationScale::Mul1_0,
        0b10 => PowerAllocationScale::Mul0_1,
        _ => PowerAllocationScale::Mul0_01,
    }
}
pub fn dpa_status(x: u16) -> DpaStatus {
    DpaStatus {
        substate_status: f8(x, 4, 0),
        substate_control_enabled: b(x, 8),
    }
}
pub fn dpa_control(x: u16) -> DpaControl { DpaControl { substate_control: f8(x, 4, 0) } }
/// From the extended capability header on: one allocation per substate, Substate_Max + 1 of them.
pub fn ok(d: &[u8]) -> bool { d.len() >= 16 && d.len() - 16 > f8(d[4], 4, 0) as usize }
pub fn decode(d: &[u8], r: &Result<DynamicPowerAllocation, DynamicPowerAllocationError>) -> bool {
    match r {
        Err(DynamicPowerAllocationError::Mandatory) => d.len() < 16,
        Err(DynamicPowerAllocationError::DpaAllocationArray { found, .. }) => d.len() >= 16 && !ok(d) && *found == d.len() - 16,
        Ok(v) => ok(d)
            && v.dpa_capability == dpa_capability(dw(d, 4))
            && v.dpa_latency_indicator == dw(d, 8)
            && v.dpa_status == dpa_status(w(d, 12))
            && v.dpa_control == dpa_control(w(d, 14))
            && same(v.dpa_power_allocation_array.0, &d[16..17 + f8(d[4], 4, 0) as usize]),
    }
}

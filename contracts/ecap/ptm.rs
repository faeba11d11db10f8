use super::super::api::extended_capabilities::precision_time_measurement::*;
use super::super::{b, decoded, dw, f8};

pub fn ptm_capability(x: u32) -> PtmCapability {
    PtmCapability {
        ptm_requester_capable: b(x, 0),
        ptm_responder_capable: b(x, 1),
        ptm_root_capable: b(x, 2),
        local_clock_granularity: f8(x, 15, 8),
    }
}
pub fn ptm_control(x: u32) -> PtmControl {
    PtmControl {
        ptm_enable: b(x, 0),
        root_select: b(x, 1),
        effective_granularity: f8(x, 15, 8),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 8 }
pub fn value(d: &[u8]) -> PrecisionTimeMeasurement {
    PrecisionTimeMeasurement { ptm_capability: ptm_capability(dw(d, 0)), ptm_control: ptm_control(dw(d, 4)) }
}
pub fn decode<E>(d: &[u8], r: &Result<PrecisionTimeMeasurement, E>) -> bool { decoded(ok(d), || value(d), r) }

use super::super::api::extended_capabilities::readiness_time_reporting::*;
use super::super::{b, decoded, dw, f8, f16};


pub fn readiness_time(x: u16) -> ReadinessTime { ReadinessTime { value: f16(x, 8, 0), scale: f8(x, 11, 9) } }
/// From the extended capability header on.
pub fn ok(d: &[u8]) -> bool { d.len() >= 12 }
pub fn value(d: &[u8]) -> ReadinessTimeReporting {
    let (x, y) = (dw(d, 4), dw(d, 8));
    ReadinessTimeReporting {
        reset_time: readiness_time(f16(x, 11, 0)),
        dl_up_time: readiness_time(f16(x, 23, 12)),
        valid: b(x, 31),
        flr_time: readiness_time(f16(y, 11, 0)),
        d3hot_to_d0_time: readiness_time(f16(y, 23, 12)),
    }
}
pub fn decode<E>(d: &[u8], r: &Result<ReadinessTimeReporting, E>) -> bool { decoded(ok(d), || value(d), r) }

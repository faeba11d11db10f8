use super::super::api::extended_capabilities::latency_tolerance_reporting::*;
use super::super::{decoded, f, f8, f16, w};


pub fn max_latency(x: u16) -> MaxLatency { MaxLatency { value: f16(x, 9, 0), scale: f8(x, 12, 10) } }
/// Nanoseconds: value times 32 to the power of scale; scales 6 and 7 are not permitted.
pub fn latency_ns(x: u16) -> usize {
    let v = f(x, 9, 0) as usize;
    match f8(x, 12, 10) {
        0 => v,
        1 => v * 32,
        2 => v * 1024,
        3 => v * 32_768,
        4 => v * 1_048_576,
        5 => v * 33_554_432,
        _ => 0,
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
pub fn value(d: &[u8]) -> LatencyToleranceReporting {
    LatencyToleranceReporting { max_snoop_latency: max_latency(w(d, 0)), max_no_snoop_latency: max_latency(w(d, 2)) }
}
pub fn decode<E>(d: &[u8], r: &Result<LatencyToleranceReporting, E>) -> bool { decoded(ok(d), || value(d), r) }

use super::super::api::extended_capabilities::alternative_routing_id_interpolation::*;
use super::super::{b, decoded, f8, w};

pub fn ari_capability(x: u16) -> AriCapability {
    AriCapability {
        mfvc_function_groups_capability: b(x, 0),
        acs_function_groups_capability: b(x, 1),
        next_function_number: f8(x, 15, 8),
    }
}
pub fn ari_control(x: u16) -> AriControl {
    AriControl {
        mfvc_function_groups_enable: b(x, 0),
        acs_function_groups_enable: b(x, 1),
        function_group: f8(x, 6, 4),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
pub fn value(d: &[u8]) -> AlternativeRoutingIdInterpretation {
    AlternativeRoutingIdInterpretation { ari_capability: ari_capability(w(d, 0)), ari_control: ari_control(w(d, 2)) }
}
pub fn decode<E>(d: &[u8], r: &Result<AlternativeRoutingIdInterpretation, E>) -> bool { decoded(ok(d), || value(d), r) }

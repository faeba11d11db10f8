use super::super::api::extended_capabilities::access_control_services::*;
use super::super::{b, f8, w};

pub fn acs_capability(x: u16) -> AcsCapability {
    AcsCapability {
        acs_source_validation: b(x, 0),
        acs_translation_blocking: b(x, 1),
        acs_p2p_request_redirect: b(x, 2),
        acs_p2p_completion_redirect: b(x, 3),
        acs_upstream_forwarding: b(x, 4),
        acs_p2p_egress_control: b(x, 5),
        acs_direct_translated_p2p: b(x, 6),
        egress_control_vector_size: f8(x, 15, 8),
    }
}
pub fn acs_control(x: u16) -> AcsControl {
    AcsControl {
        acs_source_validation_enable: b(x, 0),
        acs_translation_blocking_enable: b(x, 1),
        acs_p2p_request_redirect_enable: b(x, 2),
        acs_p2p_completion_redirect_enable: b(x, 3),
        acs_upstream_forwarding_enable: b(x, 4),
        acs_p2p_egress_control_enable: b(x, 5),
        acs_direct_translated_p2p_enable: b(x, 6),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
/// Everything but the egress control vector, which is checked through its iterator.
pub fn decode<E>(d: &[u8], r: &Result<AccessControlServices, E>) -> bool {
    match r {
        Ok(v) => ok(d) && v.acs_capability == acs_capability(w(d, 0)) && v.acs_control == acs_control(w(d, 2)),
        Err(_) => !ok(d),
    }
}
/// Bits of the egress control vector: 0 stands for 256 when the function has one.
pub fn vector_bits(x: u16) -> usize {
    match (f8(x, 15, 8), b(x, 5)) {
        (0, true) => 256,
        (n, _) => n as usize,
    }
}

use super::super::api::extended_capabilities::process_address_space_id::*;
use super::super::{b, decoded, f8, w};

pub fn pacid_capability(x: u16) -> PacidCapability {
    PacidCapability {
        execute_permission_supported: b(x, 1),
        privileged_mode_supported: b(x, 2),
        max_pasid_width: f8(x, 12, 8),
    }
}
pub fn pacid_control(x: u16) -> PacidControl {
    PacidControl {
        pasid_enable: b(x, 0),
        execute_permission_enable: b(x, 1),
        privileged_mode_enable: b(x, 2),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
pub fn value(d: &[u8]) -> ProcessAddressSpaceId {
    ProcessAddressSpaceId { pacid_capability: pacid_capability(w(d, 0)), pacid_control: pacid_control(w(d, 2)) }
}
pub fn decode<E>(d: &[u8], r: &Result<ProcessAddressSpaceId, E>) -> bool { decoded(ok(d), || value(d), r) }

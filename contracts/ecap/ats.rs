use super::super::api::extended_capabilities::address_translation_services::*;
use super::super::{b, decoded, f8, w};

pub fn ats_capability(x: u16) -> AtsCapability {
    AtsCapability {
        invalidate_queue_depth: f8(x, 4, 0),
        page_aligned_request: b(x, 5),
        global_invalidate_supported: b(x, 6),
    }
}
pub fn ats_control(x: u16) -> AtsControl {
    AtsControl {
        smallest_translation_unit: f8(x, 4, 0),
        enable: b(x, 15),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
pub fn value(d: &[u8]) -> AddressTranslationServices {
    AddressTranslationServices { ats_capability: ats_capability(w(d, 0)), ats_control: ats_control(w(d, 2)) }
}
pub fn decode<E>(d: &[u8], r: &Result<AddressTranslationServices, E>) -> bool { decoded(ok(d), || value(d), r) }

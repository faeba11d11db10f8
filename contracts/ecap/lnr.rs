use super::super::api::extended_capabilities::ln_requester::*;
use super::super::{b, decoded, f8, w};

pub fn lnr_capability(x: u16) -> LnrCapability {
    LnrCapability {
        lnr_64_supported: b(x, 0),
        lnr_128_supported: b(x, 1),
        lnr_registration_max: f8(x, 12, 8),
    }
}
pub fn lnr_control(x: u16) -> LnrControl {
    LnrControl {
        lnr_enable: b(x, 0),
        lnr_cls: b(x, 1),
        lnr_registration_limit: f8(x, 12, 8),
    }
}
/// From the extended capability header on.
pub fn decode<E>(d: &[u8], r: &Result<LnRequester, E>) -> bool {
    decoded(d.len() >= 8, || LnRequester { lnr_capability: lnr_capability(w(d, 4)), lnr_control: lnr_control(w(d, 6)) }, r)
}

use super::super::api::extended_capabilities::root_complex_register_block_header::*;
use super::super::{b, decoded, dw, w};

pub fn rcrb_capabilities(x: u32) -> RcrbCapabilities {
    RcrbCapabilities {
        crs_software_visibility: b(x, 0),
    }
}
pub fn rcrb_control(x: u32) -> RcrbControl {
    RcrbControl {
        crs_software_visibility_enable: b(x, 0),
    }
}
/// From the extended capability header on.
pub fn decode<E>(d: &[u8], r: &Result<RootComplexRegisterBlockHeader, E>) -> bool {
    decoded(d.len() >= 20, || RootComplexRegisterBlockHeader {
        vendor_id: w(d, 4),
        device_id: w(d, 6),
        rcrb_capabilities: rcrb_capabilities(dw(d, 8)),
        rcrb_control: rcrb_control(dw(d, 12)),
    }, r)
}

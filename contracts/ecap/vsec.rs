use super::super::api::extended_capabilities::vendor_specific_extended_capability::*;
use super::super::{dw, f, f8, f16, same};

pub fn header(x: u32) -> VsecHeader {
    VsecHeader { vsec_id: f16(x, 15, 0), vsec_rev: f8(x, 19, 16), vsec_length: f16(x, 31, 20) }
}
/// The length counts from the extended capability header, 4 bytes before `d`.
pub fn ok(d: &[u8]) -> bool { d.len() >= 4 }
pub fn decode<E>(d: &[u8], r: &Result<VendorSpecificExtendedCapability, E>) -> bool {
    match r {
        Err(_) => !ok(d),
        Ok(v) => {
            let n = f(dw(d, 0), 31, 20) as usize;
            ok(d) && v.header == header(dw(d, 0)) && match &v.registers {
                VsecRegisters::InvalidLength(l) => n < 8 && *l as usize == n,
                VsecRegisters::Valid(s) => n >= 8 && n - 4 <= d.len() && same(s, &d[4..n - 4]),
                VsecRegisters::Incomplete(s) => n >= 8 && n - 4 > d.len() && same(s, &d[4..]),
            }
        }
    }
}

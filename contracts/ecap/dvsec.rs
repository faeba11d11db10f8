use super::super::api::extended_capabilities::designated_vendor_specific_extended_capability::*;
use super::super::api::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::*;
use super::super::{dw, f, f16, f8, same, w};

/// The DVSEC length: header and registers together.
pub fn length(d: &[u8]) -> usize { f(dw(d, 4), 31, 20) as usize }
pub fn is_cxl(d: &[u8]) -> bool { w(d, 4) == 0x1e98 }
/// From the extended capability header on: all of its length, and 46 bytes of registers in the
/// DVSEC for CXL devices.
pub fn ok(d: &[u8]) -> bool {
    d.len() >= 10 && length(d) >= 10 && length(d) <= d.len() && !(is_cxl(d) && w(d, 8) == 0 && length(d) < 56)
}
pub fn cxl(d: &[u8], id: u16, v: &ComputeExpressLink) -> bool {
    match v {
        ComputeExpressLink::PcieDvsecForCxlDevice(v) => id == 0 && super::cxl::device(d, v),
        ComputeExpressLink::NonCxlFunctionMapDvsec(_) => id == 2,
        ComputeExpressLink::Cxl20ExtensionsDvsecForPorts(_) => id == 3,
        ComputeExpressLink::GpfDvsecForCxlPorts(_) => id == 4,
        ComputeExpressLink::GpfDvsecForCxlDevices(_) => id == 5,
        ComputeExpressLink::PcieDvsecForFlexBusPort(_) => id == 7,
        ComputeExpressLink::RegisterLocatorDvsec(_) => id == 8,
        ComputeExpressLink::MldDvsec(_) => id == 9,
        ComputeExpressLink::PcieDvsecForTestCapability(_) => id == 10,
        ComputeExpressLink::Undefined(u) => (id == 1 || id == 6 || id > 10) && *u == id,
    }
}
pub fn decode(d: &[u8], r: &Result<Dvsec, DvsecError>) -> bool {
    match r {
        Err(DvsecError::Mandatory) => d.len() < 10,
        Err(DvsecError::VendorSpecificRegisters { dvsec_vendor_id, dvsec_revision, dvsec_length, dvsec_id, real }) =>
            d.len() >= 10
                && (length(d) < 10 || length(d) > d.len())
                && *dvsec_vendor_id == w(d, 4)
                && *dvsec_revision == f8(w(d, 6), 3, 0)
                && *dvsec_length == f16(w(d, 6), 15, 4)
                && *dvsec_id == w(d, 8)
                && *real == d.len(),
        Err(DvsecError::ComputeExpressLink { .. }) =>
            d.len() >= 10 && is_cxl(d) && w(d, 8) == 0 && length(d) >= 10 && length(d) <= d.len() && length(d) < 56,
        Ok(v) => ok(d)
            && v.dvsec_vendor_id == w(d, 4)
            && v.dvsec_revision == f8(w(d, 6), 3, 0)
            && v.dvsec_length == f16(w(d, 6), 15, 4)
            && v.dvsec_id == w(d, 8)
            && match &v.dvsec_type {
                DvsecType::Unspecified(s) => !is_cxl(d) && same(s, &d[10..length(d)]),
                DvsecType::ComputeExpressLink(c) => is_cxl(d) && cxl(&d[10..length(d)], w(d, 8), c),
            },
    }
}

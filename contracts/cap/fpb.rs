use super::super::api::capabilities::flattening_portal_bridge::*;
use super::super::{b, dw, f, f8, f16, f32, w};

pub fn fpb_capabilities(x: u32) -> FpbCapabilities {
    FpbCapabilities {
        fpb_rid_decode_mechanism_supported: b(x, 0),
        fpb_mem_low_decode_mechanism_supported: b(x, 1),
        fpb_mem_high_decode_mechanism_supported: b(x, 2),
        fpb_num_sec_dev: f8(x, 7, 3),
        fpb_rid_vector_size_supported: fpb_rid_vector_size_supported(f8(x, 10, 8)),
        fpb_mem_low_vector_size_supported: fpb_mem_low_vector_size_supported(f8(x, 18, 16)),
        fpb_mem_high_vector_size_supported: fpb_mem_high_vector_size_supported(f8(x, 26, 24)),
    }
}
pub fn fpb_rid_vector_size_supported(x: u8) -> FpbRidVectorSizeSupported {
    match x {
        0b000 => FpbRidVectorSizeSupported::Size256bits,
        0b010 => FpbRidVectorSizeSupported::Size1Kbits,
        0b101 => FpbRidVectorSizeSupported::Size8kbits,
        v => FpbRidVectorSizeSupported::Reserved(v),
    }
}
pub fn fpb_mem_low_vector_size_supported(x: u8) -> FpbMemLowVectorSizeSupported {
    match x {
        0b000 => FpbMemLowVectorSizeSupported::Size256bits,
        0b001 => FpbMemLowVectorSizeSupported::Size512bits,
        0b010 => FpbMemLowVectorSizeSupported::Size1Kbits,
        0b011 => FpbMemLowVectorSizeSupported::Size2Kbits,
        0b100 => FpbMemLowVectorSizeSupported::Size4Kbits,
        v => FpbMemLowVectorSizeSupported::Reserved(v),
    }
}
pub fn fpb_mem_high_vector_size_supported(x: u8) -> FpbMemHighVectorSizeSupported {
    match x {
        0b000 => FpbMemHighVectorSizeSupported::Size256bits,
        0b001 => FpbMemHighVectorSizeSupported::Size512bits,
        0b010 => FpbMemHighVectorSizeSupported::Size1Kbits,
        0b011 => FpbMemHighVectorSizeSupported::Size2Kbits,
        0b100 => FpbMemHighVectorSizeSupported::Size4Kbits,
        0b101 => FpbMemHighVectorSizeSupported::Size8Kbits,
        v => FpbMemHighVectorSizeSupported::Reserved(v),
    }
}
pub fn fpb_rid_vector_granularity(x: u8) -> FpbRidVectorGranularity {
    match x {
        0b0000 => FpbRidVectorGranularity::Granularity8RIDs,
        0b0011 => FpbRidVectorGranularity::Granularity64RIDs,
        0b0101 => FpbRidVectorGranularity::Granularity256RIDs,
        v => FpbRidVectorGranularity::Reserved(v),
    }
}
pub fn fpb_mem_low_vector_granularity(x: u8) -> FpbMemLowVectorGranularity {
    match x {
        0b0000 => FpbMemLowVectorGranularity::Granularity1MB,
        0b0001 => FpbMemLowVectorGranularity::Granularity2MB,
        0b0010 => FpbMemLowVectorGranularity::Granularity4MB,
        0b0011 => FpbMemLowVectorGranularity::Granularity8MB,
        0b0100 => FpbMemLowVectorGranularity::Granularity16MB,
        v => FpbMemLowVectorGranularity::Reserved(v),
    }
}
pub fn fpb_mem_high_vector_granularity(x: u8) -> FpbMemHighVectorGranularity {
    match x {
        0b0000 => FpbMemHighVectorGranularity::Granularity256MB,
        0b0001 => FpbMemHighVectorGranularity::Granularity512MB,
        0b0010 => FpbMemHighVectorGranularity::Granularity1GB,
        0b0011 => FpbMemHighVectorGranularity::Granularity2GB,
        0b0100 => FpbMemHighVectorGranularity::Granularity4GB,
        0b0101 => FpbMemHighVectorGranularity::Granularity8GB,
        0b0110 => FpbMemHighVectorGranularity::Granularity16GB,
        0b0111 => FpbMemHighVectorGranularity::Granularity32GB,
        v => FpbMemHighVectorGranularity::Reserved(v),
    }
}
pub fn fpb_vector_access_control(x: u32) -> FpbVectorAccessControl {
    FpbVectorAccessControl {
        fpb_vector_access_offset: f8(x, 7, 0),
        fpb_vector_select: fpb_vector_select(f8(x, 15, 14)),
    }
}
pub fn fpb_vector_select(x: u8) -> FpbVectorSelect {
    match x {
        0b00 => FpbVectorSelect::Rid,
        0b01 => FpbVectorSelect::MemLow,
        0b10 => FpbVectorSelect::MemHigh,
        _ => FpbVectorSelect::Reserved,
    }
}
/// A start address is aligned to the granularity: lower bits are not implemented. Nothing is said
/// about the start for a reserved granularity.
pub fn mem_low(x: u32, r: &FpbMemLowVectorControl) -> bool {
    let g = f8(x, 7, 4);
    r.fpb_mem_low_decode_mechanism_enable == b(x, 0)
        && r.fpb_mem_low_vector_granularity == fpb_mem_low_vector_granularity(g)
        && (g > 4 || r.fpb_mem_low_vector_start == (f32(x, 31, 20) << 20) >> (20 + g) << (20 + g))
}
pub fn rid(x: u32, y: u32, r: &FpbRidVectorControl) -> bool {
    let g = f8(x, 7, 4);
    r.fpb_rid_decode_mechanism_enable == b(x, 0)
        && r.fpb_rid_vector_granularity == fpb_rid_vector_granularity(g)
        && (!matches!(g, 0 | 3 | 5) || r.fpb_rid_vector_start == (f16(x, 31, 19) << 3) >> (3 + g) << (3 + g))
        && r.rid_secondary_start == f16(y, 15, 3)
}
pub fn mem_high(x: u32, y: u32, r: &FpbMemHighVectorControl) -> bool {
    let g = f8(x, 7, 4);
    let start = (y as u64) << 32 | (f(x, 31, 28) << 28);
    r.fpb_mem_high_decode_mechanism_enable == b(x, 0)
        && r.fpb_mem_high_vector_granularity == fpb_mem_high_vector_granularity(g)
        && (g > 7 || r.fpb_mem_high_vector_start == start >> (28 + g) << (28 + g))
}
/// Two reserved bytes, then eight registers.
pub fn ok(d: &[u8]) -> bool { d.len() >= 34 }
pub fn decode<E>(d: &[u8], r: &Result<FlatteningPortalBridge, E>) -> bool {
    match r {
        Err(_) => !ok(d),
        Ok(v) => ok(d)
            && v.reserved == w(d, 0)
            && v.fpb_capabilities == fpb_capabilities(dw(d, 2))
            && rid(dw(d, 6), dw(d, 10), &v.fpb_rid_vector_control)
            && mem_low(dw(d, 14), &v.fpb_mem_low_vector_control)
            && mem_high(dw(d, 18), dw(d, 22), &v.fpb_mem_high_vector_control)
            && v.fpb_vector_access_control == fpb_vector_access_control(dw(d, 26))
            && v.fpb_vector_access_data == dw(d, 30),
    }
}

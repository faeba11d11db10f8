use super::super::api::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::*;
use super::super::{b, dw, f, f8, w};

pub fn cxl_capability(x: u16) -> CxlCapability {
    CxlCapability {
        cache_capable: b(x, 0),
        io_capable: b(x, 1),
        mem_capable: b(x, 2),
        mem_hwinit_mode: b(x, 3),
        hdm_count: hdm_count(f8(x, 5, 4)),
        cache_writeback_and_invalidate_capable: b(x, 6),
        cxl_reset_capable: b(x, 7),
        cxl_reset_timeout: cxl_reset_timeout(f8(x, 10, 8)),
        cxl_reset_mem_clr_capable: b(x, 11),
        multiple_logical_device: b(x, 13),
        viral_capable: b(x, 14),
        pm_init_completion_reporting_capable: b(x, 15),
    }
}
pub fn hdm_count(x: u8) -> HdmCount {
    match x {
        0b00 => HdmCount::ZeroRanges,
        0b01 => HdmCount::OneHdmRange,
        0b10 => HdmCount::TwoHdmRanges,
        _ => HdmCount::Reserved,
    }
}
pub fn cxl_reset_timeout(x: u8) -> CxlResetTimeout {
    match x {
        0b000 => CxlResetTimeout::MaxTime10ms,
        0b001 => CxlResetTimeout::MaxTime100ms,
        0b010 => CxlResetTimeout::MaxTime1s,
        0b011 => CxlResetTimeout::MaxTime10s,
        0b100 => CxlResetTimeout::MaxTime100s,
        v => CxlResetTimeout::Reserved(v),
    }
}
pub fn cxl_control(x: u16) -> CxlControl {
    CxlControl {
        cache_enable: b(x, 0),
        io_enable: b(x, 1),
        mem_enable: b(x, 2),
        cache_sf_coverage: cache_sf_coverage(f8(x, 7, 3)),
        cache_sf_granularity: cache_sf_granularity(f8(x, 10, 8)),
        cache_clean_eviction: cache_clean_eviction(b(x, 11)),
        viral_enable: b(x, 14),
    }
}
pub fn cache_sf_granularity(x: u8) -> CacheSfGranularity {
    match x {
        0b000 => CacheSfGranularity::Tracking64B,
        0b001 => CacheSfGranularity::Tracking128B,
        0b010 => CacheSfGranularity::Tracking256B,
        0b011 => CacheSfGranularity::Tracking512B,
        0b100 => CacheSfGranularity::Tracking1KB,
        0b101 => CacheSfGranularity::Tracking2KB,
        0b110 => CacheSfGranularity::Tracking4KB,
        _ => CacheSfGranularity::Reserved,
    }
}
pub fn cxl_control2(x: u16) -> CxlControl2 {
    CxlControl2 {
        disable_caching: b(x, 0),
        initiate_cache_write_back_and_invalidation: b(x, 1),
        initiate_cxl_reset: b(x, 2),
        cxl_reset_mem_clr_enable: b(x, 3),
    }
}
pub fn cxl_status2(x: u16) -> CxlStatus2 {
    CxlStatus2 {
        cache_invalid: b(x, 0),
        cxl_reset_complete: b(x, 1),
        cxl_reset_error: b(x, 2),
        power_management_initialization_complete: b(x, 15),
    }
}
pub fn cxl_capability2(x: u16) -> CxlCapability2 {
    CxlCapability2 {
        cache_size_unit: cache_size_unit(f8(x, 3, 0)),
        cache_size: f8(x, 15, 8),
    }
}
pub fn cache_size_unit(x: u8) -> CacheSizeUnit {
    match x {
        0b0000 => CacheSizeUnit::NotReported,
        0b0001 => CacheSizeUnit::Unit64K,
        0b0010 => CacheSizeUnit::Unit1MB,
        v => CacheSizeUnit::Reserved(v),
    }
}
pub fn media_type(x: u8) -> MediaType {
    match x {
        0b000 => MediaType::Volatile,
        0b001 => MediaType::NonVolatile,
        0b010 => MediaType::Cdat,
        v => MediaType::Reserved(v),
    }
}
pub fn memory_class(x: u8) -> MemoryClass {
    match x {
        0b000 => MemoryClass::Memory,
        0b001 => MemoryClass::Storage,
        0b010 => MemoryClass::Cdat,
        v => MemoryClass::Reserved(v),
    }
}
pub fn desired_interleave(x: u8) -> DesiredInterleave {
    match x {
        0b00000 => DesiredInterleave::NoInterleave,
        0b00001 => DesiredInterleave::Granularity256B,
        0b00010 => DesiredInterleave::Granularity4KB,
        0b00011 => DesiredInterleave::Granularity512B,
        0b00100 => DesiredInterleave::Granularity1KB,
        0b00101 => DesiredInterleave::Granularity2KB,
        0b00110 => DesiredInterleave::Granularity8KB,
        0b00111 => DesiredInterleave::Granularity16KB,
        v => DesiredInterleave::Reserved(v),
    }
}
pub fn memory_active_timeout(x: u8) -> MemoryActiveTimeout {
    match x {
        0b000 => MemoryActiveTimeout::MaxTime1s,
        0b001 => MemoryActiveTimeout::MaxTime4s,
        0b010 => MemoryActiveTimeout::MaxTime16s,
        0b011 => MemoryActiveTimeout::MaxTime64s,
        0b100 => MemoryActiveTimeout::MaxTime256s,
        v => MemoryActiveTimeout::Reserved(v),
    }
}
pub fn cache_sf_coverage(x: u8) -> CacheSfCoverage {
    if x == 0 { CacheSfCoverage::NoSnoopFilter } else { CacheSfCoverage::SnoopFilter(1u64 << (x as u32 + 15)) }
}
pub fn cache_clean_eviction(x: bool) -> CacheCleanEviction {
    if x { CacheCleanEviction::NotNeeded } else { CacheCleanEviction::Needed }
}
pub fn cxl_status(x: u16) -> CxlStatus { CxlStatus { viral_status: b(x, 14) } }
pub fn cxl_lock(x: u16) -> CxlLock { CxlLock { config_lock: b(x, 0) } }
/// Sizes and bases are multiples of 256 MB: bits 63:32 in the high register, 31:28 in the low one.
pub fn range_size(low: u32, high: u32) -> CxlRangeSize {
    CxlRangeSize {
        memory_info_valid: b(low, 0),
        memory_active: b(low, 1),
        media_type: media_type(f8(low, 4, 2)),
        memory_class: memory_class(f8(low, 7, 5)),
        desired_interleave: desired_interleave(f8(low, 12, 8)),
        memory_active_timeout: memory_active_timeout(f8(low, 15, 13)),
        memory_size: (high as u64) << 32 | (low & 0xf000_0000) as u64,
    }
}
/// Bits 27:0 of the low register are reserved: nothing is said about them.
pub fn range_base(low: u32, high: u32, r: &CxlRangeBase) -> bool {
    r.memory_base >> 28 == (high as u64) << 4 | f(low, 31, 28)
}
/// The registers behind the DVSEC header (byte 0Ah of the capability).
pub fn device(d: &[u8], v: &PcieDvsecForCxlDevice) -> bool {
    v.cxl_capability == cxl_capability(w(d, 0))
        && v.cxl_control == cxl_control(w(d, 2))
        && v.cxl_status == cxl_status(w(d, 4))
        && v.cxl_control2 == cxl_control2(w(d, 6))
        && v.cxl_status2 == cxl_status2(w(d, 8))
        && v.cxl_lock == cxl_lock(w(d, 10))
        && v.cxl_capability2 == cxl_capability2(w(d, 12))
        && v.cxl_range_1_size == range_size(dw(d, 18), dw(d, 14))
        && range_base(dw(d, 26), dw(d, 22), &v.cxl_range_1_base)
        && v.cxl_range_2_size == range_size(dw(d, 34), dw(d, 30))
        && range_base(dw(d, 42), dw(d, 38), &v.cxl_range_2_base)
}

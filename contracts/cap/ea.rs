use super::super::api::capabilities::enhanced_allocation::*;
use super::super::{b, dw, f8};

pub fn bar_equivalent_indicator(x: u8) -> BarEquivalentIndicator {
    match x {
        0x0 => BarEquivalentIndicator::Location10h,
        0x1 => BarEquivalentIndicator::Location14h,
        0x2 => BarEquivalentIndicator::Location18h,
        0x3 => BarEquivalentIndicator::Location1Ch,
        0x4 => BarEquivalentIndicator::Location20h,
        0x5 => BarEquivalentIndicator::Location24h,
        0x6 => BarEquivalentIndicator::BehindType1Function,
        0x7 => BarEquivalentIndicator::EquivalentNotIndicated,
        0x8 => BarEquivalentIndicator::ExpansionRomBaseAddress,
        0x9 => BarEquivalentIndicator::VfBar0,
        0xA => BarEquivalentIndicator::VfBar1,
        0xB => BarEquivalentIndicator::VfBar2,
        0xC => BarEquivalentIndicator::VfBar3,
        0xD => BarEquivalentIndicator::VfBar4,
        0xE => BarEquivalentIndicator::VfBar5,
        _ => BarEquivalentIndicator::Reserved,
    }
}
pub fn resource_definition(x: u8) -> ResourceDefinition {
    match x {
        0x00 => ResourceDefinition::MemorySpaceNonPrefetchable,
        0x01 => ResourceDefinition::MemorySpacePrefetchable,
        0x02 => ResourceDefinition::IoSpace,
        0x03 => ResourceDefinition::PfForVfMemorySpacePrefetchable,
        0x04 => ResourceDefinition::PfForVfMemorySpaceNonPrefetchable,
        0x05 => ResourceDefinition::Type1ForAbbMemoryNonPrefetchable,
        0x06 => ResourceDefinition::Type1ForAbbMemoryPrefetchable,
        0x07 => ResourceDefinition::Type1ForAbbIoSpace,
        v @ 0x08..=0xFC => ResourceDefinition::Reserved(v),
        0xFD => ResourceDefinition::UnavailableMemorySpace,
        0xFE => ResourceDefinition::UnavailableIoSpace,
        0xFF => ResourceDefinition::Unavailable,
    }
}
/// PCIe 7.8.5: one entry. `None` when the bytes of the entry are not all there.
/// Returns the entry and where the next one starts.
pub fn entry(d: &[u8]) -> Option<(EnhancedAllocationEntry, usize)> {
    if d.len() < 12 {
        return None;
    }
    let (x, base, max) = (dw(d, 0), dw(d, 4), dw(d, 8));
    let mut o = 12;
    let base = if b(base, 1) {
        if d.len() < o + 4 {
            return None;
        }
        o += 4;
        ResourceRangeAddress::U64((dw(d, o - 4) as u64) << 32 | (base & 0xffff_fffc) as u64)
    } else {
        ResourceRangeAddress::U32(base & 0xffff_fffc)
    };
    let max_offset = if b(max, 1) {
        if d.len() < o + 4 {
            return None;
        }
        o += 4;
        ResourceRangeAddress::U64((dw(d, o - 4) as u64) << 32 | (max | 3) as u64)
    } else {
        ResourceRangeAddress::U32(max | 3)
    };
    // Entry Size: DWs after the first one
    let next = 4 + 4 * f8(x, 2, 0) as usize;
    if next > d.len() {
        return None;
    }
    Some((
        EnhancedAllocationEntry {
            entry_size: f8(x, 2, 0),
            bar_equivalent_indicator: bar_equivalent_indicator(f8(x, 7, 4)),
            primary_properties: resource_definition(f8(x, 15, 8)),
            secondary_properties: resource_definition(f8(x, 23, 16)),
            writable: b(x, 30),
            enable: b(x, 31),
            base,
            max_offset,
        },
        next,
    ))
}
pub fn ok(d: &[u8], bridge: bool) -> bool { d.len() >= if bridge { 6 } else { 2 } }
/// Everything but the entries, which are checked through their iterator.
pub fn decode(d: &[u8], bridge: bool, r: &Result<EnhancedAllocation, EnhancedAllocationError>) -> bool {
    match r {
        Err(EnhancedAllocationError::NumEntries) => d.len() < 2,
        Err(EnhancedAllocationError::Type1SecondDw) => bridge && d.len() >= 2 && d.len() < 6,
        Ok(v) => ok(d, bridge)
            && v.num_entries == f8(d[0], 5, 0)
            && v.type_1_second_dw == if bridge {
                Some(Type1SecondDw { fixed_secondary_bus_number: d[2], fixed_subordinate_bus_number: d[3] })
            } else {
                None
            },
    }
}

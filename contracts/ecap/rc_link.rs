use super::super::api::extended_capabilities::root_complex_link_declaration::*;
use super::super::{b, dw, f8, f16};

pub fn element_self_description(x: u32) -> ElementSelfDescription {
    ElementSelfDescription {
        element_type: element_type(f8(x, 3, 0)),
        reserved: f8(x, 7, 4),
        number_of_link_entries: f8(x, 15, 8),
        component_id: f8(x, 23, 16),
        port_number: f8(x, 31, 24),
    }
}
pub fn element_type(x: u8) -> ElementType {
    match x {
        0x00 => ElementType::ConfigurationSpaceElement,
        0x01 => ElementType::SystemEgressPortOrInternalSink,
        0x02 => ElementType::InternalRootComplexLink,
        v => ElementType::Reserved(v),
    }
}
pub fn link_description(x: u32) -> LinkDescription {
    LinkDescription {
        link_valid: b(x, 0),
        link_type: f8(x, 1, 1),
        associate_rcrb_header: b(x, 2),
        target_component_id: f8(x, 23, 16),
        target_port_number: f8(x, 31, 24),
    }
}
pub fn link_address(low: u32, high: u32, memory: bool) -> LinkAddress {
    let a = (high as u64) << 32 | low as u64;
    if memory {
        return LinkAddress::MemoryMappedSpace(a);
    }
    let n = if f8(low, 2, 0) == 0 { 8 } else { f8(low, 2, 0) };
    LinkAddress::ConfigurationSpace {
        n,
        reserved: f16(low, 11, 3),
        function: f8(low, 14, 12),
        device: f8(low, 19, 15),
        bus: f8(low, 19 + n as u32, 20),
        address: a >> (20 + n) << (20 + n),
    }
}
pub fn link_entry(d: &[u8], o: usize) -> LinkEntry {
    LinkEntry {
        link_description: link_description(dw(d, o)),
        link_address: link_address(dw(d, o + 8), dw(d, o + 12), !b(d[o], 1)),
    }
}
/// Self description, 8 reserved bytes, and at least one complete entry.
pub fn ok(d: &[u8]) -> bool { d.len() >= 28 && d[1] >= 1 }
pub fn decode(d: &[u8], r: &Result<RootComplexLinkDeclaration, RootComplexLinkDeclarationError>) -> bool {
    match r {
        Err(RootComplexLinkDeclarationError::ElementSelfDescription) => d.len() < 4,
        Err(RootComplexLinkDeclarationError::NumberOfLinkEntries { element_self_description: e }) =>
            d.len() >= 4 && d[1] == 0 && *e == element_self_description(dw(d, 0)),
        Err(RootComplexLinkDeclarationError::ReservedSpace { element_self_description: e }) =>
            d.len() >= 4 && d[1] > 0 && d.len() < 12 && *e == element_self_description(dw(d, 0)),
        Err(RootComplexLinkDeclarationError::LinkEntry1 { element_self_description: e }) =>
            d.len() >= 12 && d[1] > 0 && d.len() < 28 && *e == element_self_description(dw(d, 0)),
        Ok(v) => ok(d)
            && v.element_self_description == element_self_description(dw(d, 0))
            && v.link_entries.state == state(d.len() - 12, d[1] as usize),
    }
}
/// What there is of `n` announced entries in `len` bytes.
pub fn state(len: usize, n: usize) -> LinkEntriesState {
    if len >= n * 16 {
        LinkEntriesState::Valid
    } else if len % 16 == 0 {
        LinkEntriesState::Incomplete
    } else {
        LinkEntriesState::Invalid
    }
}

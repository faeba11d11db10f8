use super::super::api::extended_capabilities::single_root_io_virtualization::*;
use super::super::{b, dw, f16, w};

pub fn sriov_capabilities(x: u32) -> SriovCapabilities {
    SriovCapabilities {
        vf_migration_capable: b(x, 0),
        ari_capable_hierarchy_preserved: b(x, 1),
        vf_10bit_tag_requester_supported: b(x, 2),
        vf_migration_interrupt_message_number: f16(x, 31, 21),
    }
}
pub fn sriov_control(x: u16) -> SriovControl {
    SriovControl {
        vf_enable: b(x, 0),
        vf_migration_enable: b(x, 1),
        vf_migration_interrupt_enable: b(x, 2),
        vf_mse: b(x, 3),
        ari_capable_hierarchy: b(x, 4),
        vf_10bit_tag_requester_enable: b(x, 5),
    }
}
pub fn sriov_status(x: u16) -> SriovStatus {
    SriovStatus {
        vf_migration_status: b(x, 0),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 0x3c }
pub fn decode<E>(d: &[u8], r: &Result<SingleRootIoVirtualization, E>) -> bool {
    let v = match r {
        Ok(v) => v,
        Err(_) => return !ok(d),
    };
    if !ok(d) {
        return false;
    }
    let bars = v.base_addresses.orig();
    v.sriov_capabilities == sriov_capabilities(dw(d, 0))
        && v.sriov_control == sriov_control(w(d, 4))
        && v.sriov_status == sriov_status(w(d, 6))
        && v.initial_vfs == w(d, 8)
        && v.total_vfs == w(d, 10)
        && v.num_vfs == w(d, 12)
        && v.function_dependency_link == d[14]
        && v.first_vf_offset == w(d, 0x10)
        && v.vf_stride == w(d, 0x12)
        && v.vf_device_id == w(d, 0x16)
        && v.page_sizes.supported == dw(d, 0x18)
        && v.page_sizes.system == dw(d, 0x1c)
        && bars[0] == dw(d, 0x20)
        && bars[1] == dw(d, 0x24)
        && bars[2] == dw(d, 0x28)
        && bars[3] == dw(d, 0x2c)
        && bars[4] == dw(d, 0x30)
        && bars[5] == dw(d, 0x34)
        && v.vf_migration_state_array_offset == dw(d, 0x38)
}

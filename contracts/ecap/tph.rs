use super::super::api::extended_capabilities::tph_requester::*;
use super::super::{b, dw, f8, f16, same};

pub fn tph_requester_control(x: u32) -> TphRequesterControl {
    TphRequesterControl {
        st_mode_select: st_mode_select(f8(x, 2, 0)),
        tph_requester_enable: tph_requester_enable(f8(x, 9, 8)),
    }
}
pub fn st_mode_select(x: u8) -> StModeSelect {
    match x {
        0b00 => StModeSelect::NoStMode,
        0b01 => StModeSelect::InterruptVectorMode,
        0b10 => StModeSelect::DeviceSpecificMode,
        v => StModeSelect::Reserved(v),
    }
}
pub fn tph_requester_enable(x: u8) -> TphRequesterEnable {
    match x {
        0b00 => TphRequesterEnable::NotPermitted,
        0b01 => TphRequesterEnable::TphPermitted,
        0b10 => TphRequesterEnable::Reserved,
        _ => TphRequesterEnable::TphAndExtendedTphPermitted,
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 8 }
pub fn decode<E>(d: &[u8], r: &Result<TphRequester, E>) -> bool {
    match r {
        Err(_) => !ok(d),
        Ok(v) => ok(d)
            && v.tph_requester_capability.no_st_mode_supported == b(d[0], 0)
            && v.tph_requester_capability.interrupt_vector_mode_supported == b(d[0], 1)
            && v.tph_requester_capability.device_specific_mode_supported == b(d[0], 2)
            && v.tph_requester_capability.extended_tph_requester_supported == b(d[1], 0)
            && v.tph_requester_control == tph_requester_control(dw(d, 4))
            && {
                // The size field counts from 0; a table in the capability has at most 64 entries.
                let n = f16(dw(d, 0), 26, 16);
                let end = 8 + 2 * (n as usize + 1);
                let valid = n <= 63 && d.len() >= end;
                match &v.tph_requester_capability.st_table {
                    StTable::NotPresent => f8(d[1], 2, 1) == 0,
                    StTable::Valid { size, data } => f8(d[1], 2, 1) == 1 && valid && *size == n && same(data, &d[8..end]),
                    StTable::Invalid { size, data } => f8(d[1], 2, 1) == 1 && !valid && *size == n && same(data, &d[8..]),
                    StTable::MsiXTable { size } => f8(d[1], 2, 1) == 2 && *size == n,
                    StTable::Reserved => f8(d[1], 2, 1) == 3,
                }
            },
    }
}

use super::super::api::capabilities::power_management_interface::*;
use super::super::{b, decoded, f8, w};

/// PCI_PM_PMC, PCI_PM_CTRL, PCI_PM_PPB_EXTENSIONS, PCI_PM_DATA_REGISTER
pub fn ok(d: &[u8]) -> bool { d.len() >= 6 }
pub fn value(d: &[u8]) -> PowerManagementInterface {
    let (pmc, csr, bse) = (w(d, 0), w(d, 2), d[4]);
    PowerManagementInterface {
        capabilities: Capabilities {
            version: f8(pmc, 2, 0),
            pme_clock: b(pmc, 3),
            immediate_readiness_on_return_to_d0: b(pmc, 4),
            device_specific_initialization: b(pmc, 5),
            aux_current: aux_current(f8(pmc, 8, 6)),
            d1_support: b(pmc, 9),
            d2_support: b(pmc, 10),
            pme_support: PmeSupport {
                d0: b(pmc, 11),
                d1: b(pmc, 12),
                d2: b(pmc, 13),
                d3_hot: b(pmc, 14),
                d3_cold: b(pmc, 15),
            },
        },
        control: Control {
            power_state: power_state(f8(csr, 1, 0)),
            no_soft_reset: b(csr, 3),
            pme_enabled: b(csr, 8),
            data_select: data_select(f8(csr, 12, 9)),
            data_scale: data_scale(f8(csr, 14, 13)),
            pme_status: b(csr, 15),
        },
        bridge: Bridge { reserved: f8(bse, 5, 0), b2_b3: b(bse, 6), bpcc_enabled: b(bse, 7) },
        data: d[5],
    }
}
pub fn decode<E>(d: &[u8], r: &Result<PowerManagementInterface, E>) -> bool { decoded(ok(d), || value(d), r) }
pub fn aux_current(x: u8) -> AuxCurrent {
    match x {
        0 => AuxCurrent::SelfPowered,
        1 => AuxCurrent::MaxCurrent55mA,
        2 => AuxCurrent::MaxCurrent100mA,
        3 => AuxCurrent::MaxCurrent160mA,
        4 => AuxCurrent::MaxCurrent220mA,
        5 => AuxCurrent::MaxCurrent270mA,
        6 => AuxCurrent::MaxCurrent320mA,
        _ => AuxCurrent::MaxCurrent375mA,
    }
}
pub fn power_state(x: u8) -> PowerState {
    match x {
        0 => PowerState::D0,
        1 => PowerState::D1,
        2 => PowerState::D2,
        _ => PowerState::D3Hot,
    }
}
pub fn data_select(x: u8) -> DataSelect {
    match x {
        0 => DataSelect::PowerConsumedD0,
        1 => DataSelect::PowerConsumedD1,
        2 => DataSelect::PowerConsumedD2,
        3 => DataSelect::PowerConsumedD3,
        4 => DataSelect::PowerDissipatedD0,
        5 => DataSelect::PowerDissipatedD1,
        6 => DataSelect::PowerDissipatedD2,
        7 => DataSelect::PowerDissipatedD3,
        8 => DataSelect::CommonLogic,
        v => DataSelect::Reserved(v),
    }
}
pub fn data_scale(x: u8) -> DataScale {
    match x {
        0 => DataScale::Unknown,
        1 => DataScale::Tenth,
        2 => DataScale::Hundredth,
        _ => DataScale::Thousandth,
    }
}
/// The Data register is implemented when it reads non-zero.
pub fn data(c: &PowerManagementInterface, r: &Option<Data>) -> bool {
    match r {
        None => c.data == 0,
        Some(x) => c.data != 0 && x.value == c.data && x.select == c.control.data_select && x.scale == c.control.data_scale,
    }
}

use super::super::api::extended_capabilities::power_budgeting::*;
use super::super::{b, decoded, dw, f8};

pub fn base_power(x: u8) -> BasePower {
    match x {
        v @ 0x00..=0xEF => BasePower::Value(v),
        0xF0 => BasePower::Gt239Le250,
        0xF1 => BasePower::Gt250Le275,
        0xF2 => BasePower::Gt275Le300,
        _ => BasePower::Gt300,
    }
}
pub fn data_scale(x: u8) -> DataScale {
    match x {
        0b00 => DataScale::One,
        0b01 => DataScale::Deci,
        0b10 => DataScale::Centi,
        _ => DataScale::Milli,
    }
}
pub fn pm_sub_state(x: u8) -> PmSubState {
    match x {
        0b00 => PmSubState::Default,
        v => PmSubState::Specific(v),
    }
}
pub fn pm_state(x: u8) -> PmState {
    match x {
        0b00 => PmState::D0,
        0b01 => PmState::D1,
        0b10 => PmState::D2,
        _ => PmState::D3,
    }
}
pub fn operation_condition_type(x: u8) -> OperationConditionType {
    match x {
        0b000 => OperationConditionType::PmeAux,
        0b001 => OperationConditionType::Auxiliary,
        0b010 => OperationConditionType::Idle,
        0b011 => OperationConditionType::Sustained,
        0b100 => OperationConditionType::SustainedEmergencyPowerReductionState,
        0b101 => OperationConditionType::MaximumEmergencyPowerReductionState,
        0b111 => OperationConditionType::Maximum,
        v => OperationConditionType::Reserved(v),
    }
}
pub fn power_rail(x: u8) -> PowerRail {
    match x {
        0b00 => PowerRail::Power12v,
        0b01 => PowerRail::Power3_3v,
        0b10 => PowerRail::Power1_5vOr1_8v,
        0b11 => PowerRail::Thermal,
        v => PowerRail::Reserved(v),
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 12 }
pub fn value(d: &[u8]) -> PowerBudgeting {
    let x = dw(d, 4);
    PowerBudgeting {
        data_select: d[0],
        data: Data {
            base_power: base_power(f8(x, 7, 0)),
            data_scale: data_scale(f8(x, 9, 8)),
            pm_sub_state: pm_sub_state(f8(x, 12, 10)),
            pm_state: pm_state(f8(x, 14, 13)),
            operation_condition_type: operation_condition_type(f8(x, 17, 15)),
            power_rail: power_rail(f8(x, 20, 18)),
        },
        power_budget_capability: PowerBudgetCapability { system_allocated: b(d[8], 0) },
    }
}
pub fn decode<E>(d: &[u8], r: &Result<PowerBudgeting, E>) -> bool { decoded(ok(d), || value(d), r) }

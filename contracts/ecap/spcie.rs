use super::super::api::extended_capabilities::secondary_pci_express::*;
use super::super::api::capabilities::pci_express::{ReceiverPresetHint, TransmitterPreset};
use super::super::cap::pcie::{receiver_preset_hint, transmitter_preset};
use super::super::{b, dw};

pub fn link_control3(x: u32) -> LinkControl3 {
    LinkControl3 {
        perform_equalization: b(x, 0),
        link_equalization_request_interrupt_enable: b(x, 1),
        lower_skp_os_generation_vector: SupportedLinkSpeedsVector {
        speed_2_5_gtps: b(x, 9),
        speed_5_0_gtps: b(x, 10),
        speed_8_0_gtps: b(x, 11),
        speed_16_0_gtps: b(x, 12),
        speed_32_0_gtps: b(x, 13),
        speed_64_0_gtps: b(x, 14),
        reserved: b(x, 15),
        },
    }
}
use super::super::api::capabilities::pci_express::SupportedLinkSpeedsVector;
pub fn ok(d: &[u8]) -> bool { d.len() >= 8 }
pub fn decode<E>(d: &[u8], r: &Result<SecondaryPciExpress, E>) -> bool {
    match r {
        Err(_) => !ok(d),
        Ok(v) => ok(d) && v.link_control_3 == link_control3(dw(d, 0)) && v.lane_error_status.0 == dw(d, 4),
    }
}
/// Transmitter preset and receiver preset hint of the downstream port, then of the upstream port.
pub fn lane(x: u16, dt: &TransmitterPreset, dr: &ReceiverPresetHint, ut: &TransmitterPreset, ur: &ReceiverPresetHint) -> bool {
    *dt == transmitter_preset((x & 15) as u8)
        && *dr == receiver_preset_hint((x >> 4 & 7) as u8)
        && *ut == transmitter_preset((x >> 8 & 15) as u8)
        && *ur == receiver_preset_hint((x >> 12 & 7) as u8)
}

use super::super::api::extended_capabilities::protocol_multiplexing::*;
use super::super::{b, dw, f8, w};

pub fn pmux_capability(x: u32) -> PmuxCapability {
    PmuxCapability {
        pmux_protocol_array_size: f8(x, 5, 0),
        pmux_supported_link_speeds: pmux_supported_link_speeds(f8(x, 15, 8)),
    }
}
pub fn pmux_supported_link_speeds(x: u8) -> PmuxSupportedLinkSpeeds {
    PmuxSupportedLinkSpeeds {
        speed_2_5_gtps: b(x, 0),
        speed_5_0_gtps: b(x, 1),
        speed_8_0_gtps: b(x, 2),
        speed_16_0_gtps: b(x, 3),
    }
}
pub fn pmux_control(x: u32) -> PmuxControl {
    PmuxControl {
        pmux_channel_0_assignment: f8(x, 5, 0),
        pmux_channel_1_assignment: f8(x, 13, 8),
        pmux_channel_2_assignment: f8(x, 21, 16),
        pmux_channel_3_assignment: f8(x, 29, 24),
    }
}
pub fn pmux_status(x: u32) -> PmuxStatus {
    PmuxStatus {
        pmux_channel_0_disabled_link_speed: b(x, 0),
        pmux_channel_0_disabled_link_width: b(x, 1),
        pmux_channel_0_disabled_link_protocol_specific: b(x, 2),
        pmux_channel_1_disabled_link_speed: b(x, 8),
        pmux_channel_1_disabled_link_width: b(x, 9),
        pmux_channel_1_disabled_link_protocol_specific: b(x, 10),
        pmux_channel_2_disabled_link_speed: b(x, 16),
        pmux_channel_2_disabled_link_width: b(x, 17),
        pmux_channel_2_disabled_link_protocol_specific: b(x, 18),
        pmux_channel_3_disabled_link_speed: b(x, 24),
        pmux_channel_3_disabled_link_width: b(x, 25),
        pmux_channel_3_disabled_link_protocol_specific: b(x, 26),
    }
}
pub fn array_len(d: &[u8]) -> usize { f8(d[4], 5, 0) as usize * 4 }
/// From the extended capability header on.
pub fn ok(d: &[u8]) -> bool { d.len() >= 16 && d.len() - 16 >= array_len(d) }
pub fn decode(d: &[u8], r: &Result<ProtocolMultiplexing, ProtocolMultiplexingError>) -> bool {
    match r {
        Err(ProtocolMultiplexingError::Mandatory) => d.len() < 16,
        Err(ProtocolMultiplexingError::PmuxProtocolArray { expected, found }) =>
            d.len() >= 16 && !ok(d) && *expected == array_len(d) && *found == d.len() - 16,
        Ok(v) => ok(d)
            && v.pmux_capability == pmux_capability(dw(d, 4))
            && v.pmux_control == pmux_control(dw(d, 8))
            && v.pmux_status == pmux_status(dw(d, 12)),
    }
}
pub fn entry(d: &[u8], o: usize) -> PmuxProtocolArrayEntry {
    PmuxProtocolArrayEntry { protocol_id: w(d, o), authority_id: w(d, o + 2) }
}

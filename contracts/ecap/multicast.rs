use super::super::api::extended_capabilities::multicast::*;
use super::super::{b, decoded, f8, qw, w};

pub fn multicast_capability(x: u16) -> MulticastCapability {
    MulticastCapability {
        mc_max_group: f8(x, 5, 0),
        mc_window_size_requested: f8(x, 13, 8),
        mc_ecrc_regeneration_supported: b(x, 15),
    }
}
pub fn multicast_control(x: u16) -> MulticastControl {
    MulticastControl {
        mc_num_group: f8(x, 5, 0),
        mc_enable: b(x, 15),
    }
}
pub fn mc_base_address(x: u64) -> McBaseAddress {
    McBaseAddress {
        mc_index_position: f8(x, 5, 0),
        mc_base_address: x & !0xfff,
    }
}
pub fn mc_overlay_bar(x: u64) -> McOverlayBar {
    McOverlayBar {
        mc_overlay_size: f8(x, 5, 0),
        mc_overlay_bar: x & !0x3f,
    }
}
/// From the extended capability header on; the overlay BAR is there when its bytes are.
pub fn decode<E>(d: &[u8], r: &Result<Multicast, E>) -> bool {
    decoded(d.len() >= 40, || Multicast {
        multicast_capability: multicast_capability(w(d, 4)),
        multicast_control: multicast_control(w(d, 6)),
        mc_base_address: mc_base_address(qw(d, 8)),
        mc_receive: qw(d, 16),
        mc_block_all: qw(d, 24),
        mc_block_untranslated: qw(d, 32),
        mc_overlay_bar: if d.len() >= 48 { Some(mc_overlay_bar(qw(d, 40))) } else { None },
    }, r)
}

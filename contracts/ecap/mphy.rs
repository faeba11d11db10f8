use super::super::api::extended_capabilities::pci_express_over_m_phy::*;
use super::super::{b, decoded, dw, f8};

pub fn mpcie_capabilities(x: u32) -> MpcieCapabilities {
    MpcieCapabilities {
        mpcie_link_speed_capability: mpcie_link_speed(f8(x, 1, 0)),
        configuration_software_supported: b(x, 15),
        maximum_tx_lane_width_capability: lane_width_supported(f8(x, 23, 16)),
        maximum_rx_lane_width_capability: lane_width_supported(f8(x, 31, 24)),
    }
}
pub fn mpcie_control(x: u32) -> MpcieControl {
    MpcieControl {
        mpcie_target_link_speed_control: mpcie_link_speed(f8(x, 1, 0)),
    }
}
pub fn mpcie_status(x: u32) -> MpcieStatus {
    MpcieStatus {
        mpcie_current_link_speed_status: mpcie_link_speed(f8(x, 1, 0)),
        mpcie_configuration_software_status: b(x, 15),
        tx_lane_width_status: lane_width_status(f8(x, 23, 16)),
        rx_lane_width_status: lane_width_status(f8(x, 31, 24)),
    }
}
pub fn mpcie_phy_control_address(x: u32) -> MpciePhyControlAddress {
    MpciePhyControlAddress {
        lower_addr: f8(x, 7, 0),
        upper_addr: f8(x, 20, 16) | (b(x, 24) as u8) << 5,
        phy_location: phy_location(f8(x, 27, 25)),
        read: b(x, 30),
        config: b(x, 31),
    }
}
pub fn mpcie_phy_control_data(x: u32) -> MpciePhyControlData {
    MpciePhyControlData {
        phy_register_data: f8(x, 7, 0),
        phy_control_error: b(x, 29),
        rrap_abort_a: b(x, 30),
        phy_control_pending: b(x, 31),
    }
}
pub fn lane_width_supported(x: u8) -> LaneWidthSupported {
    LaneWidthSupported {
        x1: b(x, 0),
        x2: b(x, 1),
        x4: b(x, 2),
        x8: b(x, 3),
        x12: b(x, 4),
        x16: b(x, 5),
        x32: b(x, 6),
    }
}
pub fn lane_width_status(x: u8) -> LaneWidthStatus {
    match x {
        0b0000_0001 => LaneWidthStatus::X1,
        0b0000_0010 => LaneWidthStatus::X2,
        0b0000_0100 => LaneWidthStatus::X4,
        0b0000_1000 => LaneWidthStatus::X8,
        0b0000_1100 => LaneWidthStatus::X12,
        0b0001_0000 => LaneWidthStatus::X16,
        0b0010_0000 => LaneWidthStatus::X32,
        v => LaneWidthStatus::Reserved(v),
    }
}
pub fn phy_location(x: u8) -> PhyLocation {
    match x {
        0b000 => PhyLocation::LocalPhy,
        0b001 => PhyLocation::RemotePhy,
        v => PhyLocation::Reserved(v),
    }
}
pub fn mpcie_link_speed(x: u8) -> MpcieLinkSpeed { MpcieLinkSpeed { hs_g1: b(x, 0), hs_g2: b(x, 1) } }
/// From the extended capability header on.
pub fn decode<E>(d: &[u8], r: &Result<PciExpressOverMphy, E>) -> bool {
    decoded(d.len() >= 28, || PciExpressOverMphy {
        mpcie_capabilities: mpcie_capabilities(dw(d, 4)),
        mpcie_control: mpcie_control(dw(d, 8)),
        mpcie_status: mpcie_status(dw(d, 12)),
        mpcie_lane_error_status: dw(d, 16),
        mpcie_phy_control_address: mpcie_phy_control_address(dw(d, 20)),
        mpcie_phy_control_data: mpcie_phy_control_data(dw(d, 24)),
    }, r)
}

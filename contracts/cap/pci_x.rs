use super::super::api::capabilities::pci_x::*;
use super::super::{b, dw, f8, w};

pub fn ecc_control_and_status(x: u32) -> EccControlAndStatus {
    EccControlAndStatus {
        select_secondary_ecc_registers: b(x, 0),
        error_present_in_other_ecc_register_bank: b(x, 1),
        additional_correctable_ecc_error: b(x, 2),
        additional_uncorrectable_ecc_error: b(x, 3),
        ecc_error_phase: ecc_error_phase(f8(x, 6, 4)),
        ecc_error_corrected: b(x, 7),
        syndrome: syndrome(f8(x, 15, 8)),
        error_first_command: f8(x, 19, 16),
        error_second_command: f8(x, 23, 20),
        error_upper_attributes: f8(x, 27, 24),
        ecc_control_update_enable: b(x, 28),
        disable_single_bit_error_correction: b(x, 30),
        ecc_mode: b(x, 31),
    }
}
pub fn ecc_error_phase(x: u8) -> EccErrorPhase {
    match x {
        0 => EccErrorPhase::NoError,
        1 => EccErrorPhase::First32bits,
        2 => EccErrorPhase::Second32bits,
        3 => EccErrorPhase::AttributePhase,
        4 => EccErrorPhase::Phase32or16bit,
        5 => EccErrorPhase::Phase64bit,
        _ => EccErrorPhase::Reserved,
    }
}
pub fn syndrome(x: u8) -> Syndrome {
    Syndrome {
        e0: b(x, 0),
        e1: b(x, 1),
        e2: b(x, 2),
        e3: b(x, 3),
        e4: b(x, 4),
        e5: b(x, 5),
        e6: b(x, 6),
        e7: b(x, 7),
    }
}
pub fn secondary_status(x: u16) -> SecondaryStatus {
    SecondaryStatus {
        device_64_bit: b(x, 0),
        pci_x_133_capable: b(x, 1),
        slit_completion_discarded: b(x, 2),
        unexpected_split_completion: b(x, 3),
        split_completion_overrun: b(x, 4),
        split_request_delayed: b(x, 5),
        secondary_bus_mode: secondary_bus_mode(f8(x, 9, 6)),
        error_protection: error_protection(f8(x, 9, 6)),
        secondary_bus_frequency: secondary_bus_frequency(f8(x, 9, 6)),
        pci_x_266_capable: b(x, 14),
        pci_x_533_capable: b(x, 15),
    }
}
pub fn secondary_bus_frequency(x: u8) -> SecondaryBusFrequency {
    match x {
        0x0 => SecondaryBusFrequency::NotAvailable,
        0x1 | 0x5 | 0x9 | 0xD => SecondaryBusFrequency::Freq66MHz,
        0x2 | 0x6 | 0xA | 0xE => SecondaryBusFrequency::Freq100MHz,
        0x3 | 0x7 | 0xB | 0xF => SecondaryBusFrequency::Freq133MHz,
        _ => SecondaryBusFrequency::Reserved,
    }
}
pub fn bridge_status(x: u32) -> BridgeStatus {
    BridgeStatus {
        function_number: f8(x, 2, 0),
        device_number: f8(x, 7, 3),
        bus_number: f8(x, 15, 8),
        device_64_bit: b(x, 16),
        pci_x_133_capable: b(x, 17),
        slit_completion_discarded: b(x, 18),
        unexpected_split_completion: b(x, 19),
        split_completion_overrun: b(x, 20),
        split_request_delayed: b(x, 21),
        device_id_messaging_capable: b(x, 29),
        pci_x_266_capable: b(x, 30),
        pci_x_533_capable: b(x, 31),
    }
}
pub fn command(x: u16) -> Command {
    Command {
        uncorrectable_data_error_recovery_enable: b(x, 0),
        enable_relaxed_ordering: b(x, 1),
        maximum_memory_read_byte_count: MaximumByteCount(f8(x, 3, 2)),
        maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(f8(x, 6, 4)),
    }
}
pub fn device_complexity(x: bool) -> DeviceComplexity { if x { DeviceComplexity::Bridge } else { DeviceComplexity::Simple } }
/// PCI_X_STATUS
pub fn status(x: u32) -> Status {
    Status {
        function_number: f8(x, 2, 0),
        device_number: f8(x, 7, 3),
        bus_number: f8(x, 15, 8),
        device_64_bit: b(x, 16),
        pci_x_133_capable: b(x, 17),
        slit_completion_discarded: b(x, 18),
        unexpected_split_completion: b(x, 19),
        device_complexity: device_complexity(b(x, 20)),
        designed_maximum_memory_read_byte_count: MaximumByteCount(f8(x, 22, 21)),
        designed_maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(f8(x, 25, 23)),
        designed_maximum_cumulative_read_size: MaximumCumulativeReadSize(f8(x, 28, 26)),
        received_split_completion_error_message: b(x, 29),
        pci_x_266_capable: b(x, 30),
        pci_x_533_capable: b(x, 31),
    }
}
/// Mode, protection and frequency are one field, bits 9:6 of the secondary status.
pub fn secondary_bus_mode(x: u8) -> SecondaryBusMode {
    match x {
        0 => SecondaryBusMode::Conventional,
        1..=7 => SecondaryBusMode::Mode1,
        8..=11 => SecondaryBusMode::PciX266,
        _ => SecondaryBusMode::PciX533,
    }
}
pub fn error_protection(x: u8) -> ErrorProtection { if x < 4 { ErrorProtection::Parity } else { ErrorProtection::Ecc } }
pub fn max_split(x: u8) -> u8 {
    match x { 0 => 1, 1 => 2, 2 => 3, 3 => 4, 4 => 8, 5 => 12, 6 => 16, _ => 32 }
}
/// The ECC registers follow at `o` in versions 1 (mode 2 only) and 2 (both modes) of the list item.
fn ecc(d: &[u8], version: u8, o: usize) -> Ecc {
    match version {
        0 => Ecc::None,
        1 => Ecc::Mode2Only {
            control_and_status: ecc_control_and_status(dw(d, o)),
            first_address: dw(d, o + 4),
            second_address: dw(d, o + 8),
            attribute: dw(d, o + 12),
        },
        2 => Ecc::Mode1OrMode2 {
            control_and_status: ecc_control_and_status(dw(d, o)),
            first_address: dw(d, o + 4),
            second_address: dw(d, o + 8),
            attribute: dw(d, o + 12),
        },
        _ => Ecc::Reserved,
    }
}
fn ecc_size(version: u8) -> usize { if version == 1 || version == 2 { 16 } else { 0 } }
pub fn ok(d: &[u8]) -> bool { d.len() >= 6 && d.len() >= 6 + ecc_size(f8(w(d, 0), 13, 12)) }
pub fn value(d: &[u8]) -> Result<PciX, PciXError> {
    if d.len() < 6 {
        return Err(PciXError::CommandAndStatus);
    }
    let version = f8(w(d, 0), 13, 12);
    if d.len() < 6 + ecc_size(version) {
        return Err(if version == 1 { PciXError::EccMode2Only } else { PciXError::EccMode1OrMode2 });
    }
    Ok(PciX { command: command(w(d, 0)), status: status(dw(d, 2)), ecc: ecc(d, version, 6) })
}
pub fn decode(d: &[u8], r: &Result<PciX, PciXError>) -> bool { *r == value(d) }
pub fn bridge_ok(d: &[u8]) -> bool { d.len() >= 14 && d.len() >= 14 + ecc_size(f8(w(d, 0), 13, 12)) }
pub fn bridge_value(d: &[u8]) -> Result<PciXBridge, PciXBridgeError> {
    if d.len() < 14 {
        return Err(PciXBridgeError::Mandatory);
    }
    let version = f8(w(d, 0), 13, 12);
    if d.len() < 14 + ecc_size(version) {
        return Err(if version == 1 { PciXBridgeError::BridgeEccMode2Only } else { PciXBridgeError::BridgeEccMode1OrMode2 });
    }
    Ok(PciXBridge {
        secondary_status: secondary_status(w(d, 0)),
        bridge_status: bridge_status(dw(d, 2)),
        upstream_split_transaction_control: SplitTransactionControl {
            split_transaction_capacity: w(d, 6),
            split_transaction_commitment_limit: w(d, 8),
        },
        downstream_split_transaction_control: SplitTransactionControl {
            split_transaction_capacity: w(d, 10),
            split_transaction_commitment_limit: w(d, 12),
        },
        ecc: ecc(d, version, 14),
    })
}
pub fn bridge_decode(d: &[u8], r: &Result<PciXBridge, PciXBridgeError>) -> bool { *r == bridge_value(d) }

use super::super::api::capabilities::message_signaled_interrups::*;
use super::super::{b, dw, f8, qw, w};

/// PCI_MSI_FLAGS
pub fn control(x: u16) -> MessageControl {
    MessageControl {
        msi_enable: b(x, 0),
        multiple_message_capable: MultipleMessage(f8(x, 3, 1)),
        multiple_message_enable: MultipleMessage(f8(x, 6, 4)),
        a_64_bit_address_capable: b(x, 7),
        per_vector_masking_capable: b(x, 8),
        extended_message_data_capable: b(x, 9),
        extended_message_data_enable: b(x, 10),
    }
}
/// Bytes the layout selected by the 64-bit (bit 7) and per-vector masking (bit 8) bits takes.
pub fn size(x: u16) -> usize {
    match (b(x, 7), b(x, 8)) {
        (false, false) => 10,
        (true, false) => 14,
        (false, true) => 18,
        (true, true) => 22,
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 2 && d.len() >= size(w(d, 0)) }
pub fn value(d: &[u8]) -> Result<MessageSignaledInterrups, MessageSignaledInterrupsError> {
    if d.len() < 2 {
        return Err(MessageSignaledInterrupsError::MessageControl);
    }
    let x = w(d, 0);
    let (wide, masking) = (b(x, 7), b(x, 8));
    if d.len() < size(x) {
        return Err(match (wide, masking) {
            (false, false) => MessageSignaledInterrupsError::Size32bit,
            (true, false) => MessageSignaledInterrupsError::Size64bit,
            (false, true) => MessageSignaledInterrupsError::Size32bitPerVector,
            (true, true) => MessageSignaledInterrupsError::Size64bitPerVector,
        });
    }
    // the data register follows a one- or two-dword address
    let o = if wide { 10 } else { 6 };
    Ok(MessageSignaledInterrups {
        message_control: control(x),
        message_address: if wide { MessageAddress::Qword(qw(d, 2)) } else { MessageAddress::Dword(dw(d, 2)) },
        message_data: w(d, o),
        extended_message_data: w(d, o + 2),
        mask_bits: if masking { Some(dw(d, o + 4)) } else { None },
        pending_bits: if masking { Some(dw(d, o + 8)) } else { None },
    })
}
pub fn decode(d: &[u8], r: &Result<MessageSignaledInterrups, MessageSignaledInterrupsError>) -> bool { *r == value(d) }

use super::super::api::capabilities::msi_x::*;
use super::super::{b, decoded, dw, f8, f16, w};

/// PCI_MSIX_FLAGS
pub fn message_control(x: u16) -> MessageControl {
    MessageControl { table_size: f16(x, 10, 0), function_mask: b(x, 14), msi_x_enable: b(x, 15) }
}
pub fn bir(x: u8) -> Bir {
    match x {
        0 => Bir::Bar10h,
        1 => Bir::Bar14h,
        2 => Bir::Bar18h,
        3 => Bir::Bar1Ch,
        4 => Bir::Bar20h,
        5 => Bir::Bar24h,
        v => Bir::Reserved(v),
    }
}
/// PCI_MSIX_TABLE: BIR in 2:0, the offset is the rest, qword aligned
pub fn table(x: u32) -> Table { Table { bir: bir(f8(x, 2, 0)), offset: x & 0xffff_fff8 } }
/// PCI_MSIX_PBA
pub fn pending_bit_array(x: u32) -> PendingBitArray { PendingBitArray { bir: bir(f8(x, 2, 0)), offset: x & 0xffff_fff8 } }
pub fn ok(d: &[u8]) -> bool { d.len() >= 10 }
pub fn value(d: &[u8]) -> MsiX {
    MsiX { message_control: message_control(w(d, 0)), table: table(dw(d, 2)), pending_bit_array: pending_bit_array(dw(d, 6)) }
}
pub fn decode<E>(d: &[u8], r: &Result<MsiX, E>) -> bool { decoded(ok(d), || value(d), r) }

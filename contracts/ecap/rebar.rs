use super::super::api::extended_capabilities::resizable_bar::*;
use super::super::{b, dw, f8, f16};

pub fn resizable_bar_control(x: u32) -> ResizableBarControl {
    ResizableBarControl {
        bar_index: f8(x, 2, 0),
        number_of_resizable_bars: f8(x, 7, 5),
        bar_size: f8(x, 13, 8),
        support_map_from_256tb_to_8eb: f16(x, 31, 16),
    }
}
pub fn bars(d: &[u8]) -> usize { f8(d[8], 7, 5) as usize }
/// From the extended capability header on: 1 to 6 entries, their number in the first of them.
pub fn ok(d: &[u8]) -> bool { d.len() >= 12 && bars(d) >= 1 && bars(d) <= 6 && d.len() >= 4 + 8 * bars(d) }
pub fn decode(d: &[u8], r: &Result<ResizableBar, ResizableBarError>) -> bool {
    match r {
        Err(ResizableBarError::FirstEntry) => d.len() < 12,
        Err(ResizableBarError::NumberOfResizableBars { value }) =>
            d.len() >= 12 && (bars(d) == 0 || bars(d) == 7) && *value == bars(d),
        Err(ResizableBarError::ShortData) => d.len() >= 12 && bars(d) >= 1 && bars(d) <= 6 && !ok(d),
        Ok(_) => ok(d),
    }
}
pub fn resizable_bar_capability(x: u32) -> ResizableBarCapability {
    ResizableBarCapability { support_map_from_1mb_to_128tb: x }
}
pub fn entry(d: &[u8], o: usize) -> ResizableBarEntry {
    ResizableBarEntry { capability: resizable_bar_capability(dw(d, o)), control: resizable_bar_control(dw(d, o + 4)) }
}
/// Whether a size of 2^power bytes is announced.
pub fn supports(capability: u32, control: u32, power: usize) -> bool {
    power >= 20 && power < 64 && if power < 48 { b(capability, power as u32 - 16) } else { b(control, power as u32 - 32) }
}

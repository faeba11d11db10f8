//! What the stand-in decoders record (ghost state): which of them was called last, with which bytes and header.
use crate::header::Header;
/// A stand-in decoder's name.
pub trait Decoder { const TAG: u16; }
#[derive(Clone, Copy)]
struct Ghost { tag: u16, at: usize, len: usize, header: usize, calls: u8, succeeds: bool }
static mut GHOST: Ghost = Ghost { tag: 0, at: 0, len: 0, header: 0, calls: 0, succeeds: true };
/// A decoder was called; whether it succeeds.
pub fn called(tag: u16, d: &[u8], header: *const Header) -> bool {
    unsafe {
        GHOST.tag = tag;
        GHOST.at = d.as_ptr() as usize;
        GHOST.len = d.len();
        GHOST.header = header as usize;
        GHOST.calls = if GHOST.calls < 255 { GHOST.calls + 1 } else { 255 };
        GHOST.succeeds
    }
}
/// Decoders succeed or fail from now on; none was called yet.
pub fn start(succeeds: bool) {
    unsafe { GHOST = Ghost { tag: 0, at: 0, len: 0, header: 0, calls: 0, succeeds } }
}
/// Whether the decoders succeed.
pub fn succeeds() -> bool { unsafe { GHOST.succeeds } }
/// Whether a decoder was called since `start`.
pub fn any_call() -> bool { unsafe { GHOST.calls != 0 } }
/// Whether the call since `start` was of decoder `D` with the bytes `d` and, if it takes one, the header `h`.
pub fn was<D: Decoder>(d: &[u8], h: *const Header) -> bool {
    unsafe {
        GHOST.calls != 0 && GHOST.tag == D::TAG && GHOST.at == d.as_ptr() as usize && GHOST.len == d.len()
            && GHOST.header == h as usize
    }
}

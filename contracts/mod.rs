// Specification functions ("what the bytes mean"), written from the PCI / PCI Express / CXL
// register definitions and independent of the crate's own decoding machinery: plain shifts,
// masks and match tables over explicit bit numbers and byte offsets.
//
// This text is compiled twice from the same files:
//   * inside pcics (cfg(pcics_contracts)), where the in-place `kani::ensures` attributes on the
//     real functions refer to it as `crate::contracts::...`;
//   * inside the harness crate, which asserts the same predicates at the public API boundary.
// The enclosing module provides `api` (an alias of the pcics crate root).

/// Bit `n` of `x`.
pub fn b(x: impl Into<u64>, n: u32) -> bool { let x: u64 = x.into(); (x >> n) & 1 == 1 }
/// Bits `hi:lo` of `x` (PCI notation, inclusive), right aligned.
pub fn f(x: impl Into<u64>, hi: u32, lo: u32) -> u64 {
    let x: u64 = x.into();
    (x >> lo) & (u64::MAX >> (63 - (hi - lo)))
}
pub fn f8(x: impl Into<u64>, hi: u32, lo: u32) -> u8 { f(x, hi, lo) as u8 }
pub fn f16(x: impl Into<u64>, hi: u32, lo: u32) -> u16 { f(x, hi, lo) as u16 }
pub fn f32(x: impl Into<u64>, hi: u32, lo: u32) -> u32 { f(x, hi, lo) as u32 }
/// Little-endian loads at a byte offset.
pub fn w(d: &[u8], o: usize) -> u16 { (d[o] as u16) | (d[o + 1] as u16) << 8 }
pub fn dw(d: &[u8], o: usize) -> u32 { (w(d, o) as u32) | (w(d, o + 2) as u32) << 16 }
pub fn qw(d: &[u8], o: usize) -> u64 { (dw(d, o) as u64) | (dw(d, o + 4) as u64) << 32 }
/// Same slice: same start, same length (so same contents, and no loop over them).
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr()) }

pub mod header;
pub mod cap;
pub mod ecap;

/// A decoder succeeds exactly when `ok`, with `value`.
pub fn decoded<T: PartialEq, E>(ok: bool, value: impl FnOnce() -> T, r: &Result<T, E>) -> bool {
    match r {
        Ok(v) => ok && *v == value(),
        Err(_) => !ok,
    }
}

//! Harness vocabulary. Under Kani `any` is a symbolic value: a harness covers every input at once.
//! Without Kani the same harness text runs natively on one concrete input (replay of a
//! counterexample, or the search for one); see `native.rs`.

/// A slice of arbitrary length (no bound) and arbitrary contents.
#[cfg(all(kani, not(pcics_replay)))]
pub fn any_slice() -> &'static [u8] {
    use std::alloc::{alloc, Layout};
    let len: usize = kani::any();
    if len == 0 {
        return &[];
    }
    kani::assume(len <= isize::MAX as usize);
    unsafe {
        let p = alloc(Layout::array::<u8>(len).unwrap());
        kani::assume(!p.is_null());
        core::slice::from_raw_parts(p, len)
    }
}
/// For the search of a counterexample that can be replayed (never for a proof): the contents come
/// from `kani::any`, whose values Kani can write out, so the length needs a bound.
#[cfg(all(kani, pcics_replay))]
pub fn any_slice() -> &'static [u8] {
    let len: usize = kani::any();
    let a: &'static [u8; 128] = Box::leak(Box::new(kani::any()));
    kani::assume(len <= 128);
    &a[..len]
}
#[cfg(not(kani))]
pub fn any_slice() -> &'static [u8] { crate::native::any_slice() }

#[cfg(not(kani))]
pub use crate::native::kani;

/// One harness: a proof under Kani, a plain function natively.
macro_rules! proof {
    ($(#[$a:meta])* $name:ident, unwind $n:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($n))]
        pub fn $name() $body
    };
    ($name:ident, $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        pub fn $name() $body
    };
}
/// A proof for some sizes or the first items of an iteration only. Under cfg(pcics_states) the
/// proofs by induction in ind.rs take its place.
macro_rules! bounded {
    ($name:ident, unwind $n:literal, $body:block) => {
        #[cfg(not(all(kani, pcics_states)))]
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($n))]
        pub fn $name() $body
    };
    ($name:ident, $body:block) => {
        #[cfg(not(all(kani, pcics_states)))]
        #[cfg_attr(kani, kani::proof)]
        pub fn $name() $body
    };
}
/// The conversion of one register, for every value of it, against its specification function.
/// The function itself carries the same specification as its contract (`kani::ensures`), and the
/// harness is the proof of that contract.
macro_rules! reg {
    ($($name:ident: $t:ty, $int:ty, $spec:path;)*) => {$(
        #[cfg_attr(all(kani, pcics_contracts), kani::proof_for_contract(<$t as core::convert::From<$int>>::from))]
        #[cfg_attr(all(kani, not(pcics_contracts)), kani::proof)]
        pub fn $name() {
            let x: $int = kani::any();
            let r = <$t as core::convert::From<$int>>::from(x);
            assert!(r == $spec(x));
        }
    )*};
}
/// A decoder of a byte slice, for slices of every length and contents, against its specification
/// predicate; both outcomes have to be reachable.
macro_rules! dec {
    ($($name:ident: $t:ty, $spec:path;)*) => {$(
        #[cfg_attr(kani, kani::proof)]
        pub fn $name() {
            let d = any_slice();
            let r = <$t>::try_from(d);
            kani::cover!(r.is_ok());
            kani::cover!(r.is_err());
            assert!($spec(d, &r));
        }
    )*};
}
/// As `reg!`, by plain proof: for generic functions, whose contracts Kani only checks at calls.
macro_rules! regp {
    ($($name:ident: $t:ty, $int:ty, $spec:path;)*) => {$(
        #[cfg_attr(kani, kani::proof)]
        pub fn $name() {
            let x: $int = kani::any();
            let r = <$t as core::convert::From<$int>>::from(x);
            assert!(r == $spec(x));
        }
    )*};
}
/// As `reg!`, for a field narrower than its type: the contract requires `x <= max`.
macro_rules! regn {
    ($($name:ident: $t:ty, $int:ty, $max:expr, $spec:path;)*) => {$(
        #[cfg_attr(all(kani, pcics_contracts), kani::proof_for_contract(<$t as core::convert::From<$int>>::from))]
        #[cfg_attr(all(kani, not(pcics_contracts)), kani::proof)]
        pub fn $name() {
            let x: $int = kani::any();
            kani::assume(x <= $max);
            let r = <$t as core::convert::From<$int>>::from(x);
            assert!(r == $spec(x));
        }
    )*};
}

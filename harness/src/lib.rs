//! Proof harnesses: every harness calls real pcics code on unconstrained inputs.
#![recursion_limit = "1024"]
#![allow(semicolon_in_expressions_from_macros, unexpected_cfgs, dead_code, unused_imports)]
pub mod contracts {
    pub mod api {
        pub use pcics::{capabilities, extended_capabilities, header};
    }
    include!("../../contracts/mod.rs");
}
#[cfg(not(kani))]
pub mod dict;
#[cfg(not(kani))]
pub mod native;
#[macro_use]
pub mod util;
pub mod header;
pub mod cap;
pub mod ecap;
pub mod total;
#[cfg(any(not(kani), pcics_states))]
pub mod ind;
#[cfg(not(kani))]
pub mod api { pub use pcics::{capabilities, extended_capabilities, header}; }
#[cfg(not(kani))]
pub mod walk;

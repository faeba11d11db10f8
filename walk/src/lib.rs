//! The list walks of /repo (capabilities.rs and extended_capabilities.rs, copied byte for byte by
//! tools/extract.py) over stand-in decoders.
#![allow(semicolon_in_expressions_from_macros, unexpected_cfgs, dead_code, unused_imports)]
pub mod token;
pub mod header { pub use pcics::header::*; }
pub use pcics::{DDR_OFFSET, ECS_OFFSET, DDR_LENGTH, ECS_LENGTH, Header};
pub mod capabilities;
pub mod extended_capabilities;
pub mod api { pub use crate::{capabilities, extended_capabilities, header}; }
#[cfg(not(kani))]
pub mod dict;
#[cfg(not(kani))]
pub mod native;
#[macro_use]
pub mod util;
pub mod walk;

//! Numbers for the native runs; check.py fills it in from /repo and the specification.
pub const DICT: &[&[u64]] = &[];

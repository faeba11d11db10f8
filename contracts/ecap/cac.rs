use super::super::api::extended_capabilities::configuration_access_correlation::*;
use super::super::{decoded, dw};


/// From the extended capability header on.
pub fn decode<E>(d: &[u8], r: &Result<ConfigurationAccessCorrelation, E>) -> bool {
    decoded(d.len() >= 8, || ConfigurationAccessCorrelation { device_correlation: dw(d, 4) }, r)
}

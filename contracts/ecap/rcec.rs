use super::super::api::extended_capabilities::root_complex_event_collector_endpoint_association::*;
use super::super::{decoded, dw};


pub fn decode<E>(d: &[u8], r: &Result<RootComplexEventCollectorEndpointAssociation, E>) -> bool {
    decoded(d.len() >= 4, || RootComplexEventCollectorEndpointAssociation { association_bitmap_for_rcieps: dw(d, 0) }, r)
}

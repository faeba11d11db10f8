use super::super::api::extended_capabilities::page_request_interface::*;
use super::super::{b, decoded, dw, w};


pub fn ok(d: &[u8]) -> bool { d.len() >= 12 }
pub fn value(d: &[u8]) -> PageRequestInterface {
    let (c, s) = (w(d, 0), w(d, 2));
    PageRequestInterface {
        page_request_control: PageRequestControl { enable: b(c, 0), reset: b(c, 1) },
        page_request_status: PageRequestStatus {
            response_failure: b(s, 0),
            unexpected_page_request_group_index: b(s, 1),
            stopped: b(s, 8),
            prg_response_pasid_required: b(s, 15),
        },
        outstanding_page_request_capacity: dw(d, 4),
        outstanding_page_request_allocation: dw(d, 8),
    }
}
pub fn decode<E>(d: &[u8], r: &Result<PageRequestInterface, E>) -> bool { decoded(ok(d), || value(d), r) }

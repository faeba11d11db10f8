use super::super::api::extended_capabilities::frs_queuing::*;
use super::super::{b, decoded, dw, f8, f16, w};

pub fn frs_queuing_capability(x: u32) -> FrsQueuingCapability {
    FrsQueuingCapability {
        frs_queue_max_depth: f16(x, 11, 0),
        frs_interrupt_message_number: f8(x, 20, 16),
    }
}
pub fn frs_queuing_status(x: u16) -> FrsQueuingStatus {
    FrsQueuingStatus {
        frs_message_received: b(x, 0),
        frs_message_overflow: b(x, 1),
    }
}
pub fn frs_queuing_control(x: u16) -> FrsQueuingControl {
    FrsQueuingControl {
        frs_interrupt_enable: b(x, 0),
    }
}
pub fn frs_message_queue(x: u32) -> FrsMessageQueue {
    FrsMessageQueue {
        frs_message_queue_function_id: f16(x, 15, 0),
        frs_message_queue_reason: f8(x, 19, 16),
        frs_message_queue_depth: f16(x, 31, 20),
    }
}
/// From the extended capability header on.
pub fn decode<E>(d: &[u8], r: &Result<FrsQueuing, E>) -> bool {
    decoded(d.len() >= 16, || FrsQueuing {
        frs_queuing_capability: frs_queuing_capability(dw(d, 4)),
        frs_queuing_status: frs_queuing_status(w(d, 8)),
        frs_queuing_control: frs_queuing_control(w(d, 10)),
        frs_message_queue: frs_message_queue(dw(d, 12)),
    }, r)
}

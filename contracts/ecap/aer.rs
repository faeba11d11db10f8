use super::super::api::extended_capabilities::advanced_error_reporting::*;
use super::super::{b, dw, f8, w};

pub fn uncorrectable_error(x: u32) -> UncorrectableError {
    UncorrectableError {
        link_training_error: b(x, 0),
        data_link_protocol_error_status: b(x, 4),
        surprise_down_error_status: b(x, 5),
        poisoned_tlp_received_status: b(x, 12),
        flow_control_protocol_error_status: b(x, 13),
        completion_timeout_status: b(x, 14),
        completer_abort_status: b(x, 15),
        unexpected_completion_status: b(x, 16),
        receiver_overflow_status: b(x, 17),
        malformed_tlp_status: b(x, 18),
        ecrc_error_status: b(x, 19),
        unsupported_request_error_status: b(x, 20),
        acs_violation_status: b(x, 21),
        uncorrectable_internal_error_status: b(x, 22),
        mc_blocked_tlp_status: b(x, 23),
        atomicop_egress_blocked_status: b(x, 24),
        tlp_prefix_blocked_error_status: b(x, 25),
        poisoned_tlp_egress_blocked_status: b(x, 26),
    }
}
pub fn correctable_error(x: u32) -> CorrectableError {
    CorrectableError {
        receiver_error_status: b(x, 0),
        bad_tlp_status: b(x, 6),
        bad_dllp_status: b(x, 7),
        replay_num_rollover_status: b(x, 8),
        replay_timer_timeout_status: b(x, 12),
        advisory_non_fatal_error_status: b(x, 13),
        corrected_internal_error_status: b(x, 14),
        header_log_overflow_status: b(x, 15),
    }
}
pub fn advanced_error_capabilities_and_control(x: u32) -> AdvancedErrorCapabilitiesAndControl {
    AdvancedErrorCapabilitiesAndControl {
        first_error_pointer: f8(x, 4, 0),
        ecrc_generation_capable: b(x, 5),
        ecrc_generation_enable: b(x, 6),
        ecrc_check_capable: b(x, 7),
        ecrc_check_enable: b(x, 8),
        multiple_header_recording_capable: b(x, 9),
        multiple_header_recording_enable: b(x, 10),
        tlp_prefix_log_present: b(x, 11),
        completion_timeout_prefix_or_header_log_capable: b(x, 12),
    }
}
pub fn root_error_command(x: u32) -> RootErrorCommand {
    RootErrorCommand {
        correctable_error_reporting_enable: b(x, 0),
        non_fatal_error_reporting_enable: b(x, 1),
        fatal_error_reporting_enable: b(x, 2),
    }
}
pub fn root_error_status(x: u32) -> RootErrorStatus {
    RootErrorStatus {
        err_cor_received: b(x, 0),
        multiple_err_cor_received: b(x, 1),
        err_fatal_or_nonfatal_received: b(x, 2),
        multiple_err_fatal_or_nonfatal_received: b(x, 3),
        first_uncorrectable_fatal: b(x, 4),
        non_fatal_error_messages_received: b(x, 5),
        fatal_error_messages_received: b(x, 6),
        advanced_error_interrupt_message_number: f8(x, 31, 27),
    }
}
fn dws(a: &[u32; 4], d: &[u8], o: usize) -> bool {
    a[0] == dw(d, o) && a[1] == dw(d, o + 4) && a[2] == dw(d, o + 8) && a[3] == dw(d, o + 12)
}
/// 40 bytes of common registers; the TLP Prefix Log, where there is one, up to byte 68.
pub fn ok(d: &[u8]) -> bool { d.len() >= 68 || d.len() >= 40 && !b(d[21], 3) }
/// The Root Port / Root Complex Event Collector registers are there when their 12 bytes are.
pub fn decode(d: &[u8], r: &Result<AdvancedErrorReporting, AdvancedErrorReportingError>) -> bool {
    match r {
        Err(AdvancedErrorReportingError::Common) => d.len() < 40,
        Err(AdvancedErrorReportingError::TlpPrefixLog) => d.len() >= 40 && !ok(d),
        Ok(v) => ok(d)
            && v.uncorrectable_error_status == uncorrectable_error(dw(d, 0))
            && v.uncorrectable_error_mask == uncorrectable_error(dw(d, 4))
            && v.uncorrectable_error_severity == uncorrectable_error(dw(d, 8))
            && v.correctable_error_status == correctable_error(dw(d, 12))
            && v.correctable_error_mask == correctable_error(dw(d, 16))
            && v.advanced_error_capabilities_and_control == advanced_error_capabilities_and_control(dw(d, 20))
            && dws(&v.header_log.0, d, 24)
            && match (&v.root_error_command, &v.root_error_status, &v.error_source_identification) {
                (Some(c), Some(s), Some(i)) => d.len() >= 52
                    && *c == root_error_command(dw(d, 40))
                    && *s == root_error_status(dw(d, 44))
                    && i.err_cor_source_identification == w(d, 48)
                    && i.err_fatal_or_nonfatal_source_identification == w(d, 50),
                (None, None, None) => d.len() < 52,
                _ => false,
            }
            && match &v.tlp_prefix_log {
                Some(l) => b(d[21], 3) && dws(&l.0, d, 52),
                None => !b(d[21], 3),
            },
    }
}

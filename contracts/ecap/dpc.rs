use super::super::api::extended_capabilities::downstream_port_containment::*;
use super::super::{b, dw, f8, w};

pub fn dpc_capability(x: u16) -> DpcCapability {
    DpcCapability {
        dpc_interrupt_message_number: f8(x, 4, 0),
        rp_extensions_for_dpc: b(x, 5),
        poisoned_tlp_egress_blocking_supported: b(x, 6),
        dpc_software_triggering_supported: b(x, 7),
        rp_pio_log_size: f8(x, 11, 8),
        dl_active_err_cor_signaling_supported: b(x, 12),
    }
}
pub fn dpc_control(x: u16) -> DpcControl {
    DpcControl {
        dpc_trigger_enable: dpc_trigger(f8(x, 1, 0)),
        dpc_completion_control: b(x, 2),
        dpc_interrupt_enable: b(x, 3),
        dpc_err_cor_enable: b(x, 4),
        poisoned_tlp_egress_blocking_enable: b(x, 5),
        dpc_software_trigger: b(x, 6),
        dl_active_err_cor_enable: b(x, 7),
    }
}
pub fn dpc_trigger(x: u8) -> DpcTrigger {
    match x {
        0b00 => DpcTrigger::Disabled,
        0b01 => DpcTrigger::ErrFatalMessage,
        0b10 => DpcTrigger::ErrNonFatalMessage,
        _ => DpcTrigger::Reserved,
    }
}
pub fn dpc_status(x: u16) -> DpcStatus {
    DpcStatus {
        dpc_trigger_status: b(x, 0),
        dpc_trigger_reason: dpc_trigger_reason(f8(x, 2, 1), f8(x, 6, 5)),
        dpc_interrupt_status: b(x, 3),
        dpc_rp_busy: b(x, 4),
        rp_pio_first_error_pointer: f8(x, 12, 8),
    }
}
pub fn rp_pio(x: u32) -> RpPio {
    RpPio {
        cfg_ur_cpl: b(x, 0),
        cfg_ca_cpl: b(x, 1),
        cfg_cto: b(x, 2),
        io_ur_cpl: b(x, 8),
        io_ca_cpl: b(x, 9),
        io_cto: b(x, 10),
        mem_ur_cpl: b(x, 16),
        mem_ca_cpl: b(x, 17),
        mem_cto: b(x, 18),
    }
}
pub fn dpc_trigger_reason(x: u8, extension: u8) -> DpcTriggerReason {
    match x {
        0b00 => DpcTriggerReason::UnmaskedUncorrectableError,
        0b01 => DpcTriggerReason::ReceivingAnErrNonFatal,
        0b10 => DpcTriggerReason::ReceivingAnErrFatal,
        _ => match extension {
            0b00 => DpcTriggerReason::RpPioError,
            0b01 => DpcTriggerReason::DpcSoftwareTriggerBit,
            v => DpcTriggerReason::Reserved(v),
        },
    }
}
/// The log, in dwords: 4 of header log, 1 implementation specific, then up to 4 of TLP prefix log.
pub fn log_size(d: &[u8]) -> usize { f8(d[1], 3, 0) as usize }
pub fn prefixes(d: &[u8]) -> usize { log_size(d).saturating_sub(5).min(4) }
pub fn extensions(d: &[u8]) -> bool { b(d[0], 5) }
pub fn ok(d: &[u8]) -> bool {
    d.len() >= 8 && (!extensions(d)
        || d.len() >= 44 + if log_size(d) >= 5 { 4 + 4 * prefixes(d) } else { 0 })
}
fn prefix(d: &[u8], i: usize) -> u32 { if i < prefixes(d) { dw(d, 48 + 4 * i) } else { 0 } }
pub fn decode(d: &[u8], r: &Result<DownstreamPortContainment, DownstreamPortContainmentError>) -> bool {
    match r {
        Err(DownstreamPortContainmentError::Mandatory) => d.len() < 8,
        Err(DownstreamPortContainmentError::RpExtensions) => d.len() >= 8 && extensions(d) && d.len() < 44,
        Err(DownstreamPortContainmentError::RpPioImpspecLog) =>
            d.len() >= 44 && extensions(d) && log_size(d) >= 5 && d.len() < 48,
        Err(DownstreamPortContainmentError::RpPioTlpPrefixLog { number }) =>
            d.len() >= 48 && extensions(d) && log_size(d) >= 5 && *number < prefixes(d) && *number == (d.len() - 48) / 4,
        Ok(v) => ok(d)
            && v.dpc_capability == dpc_capability(w(d, 0))
            && v.dpc_control == dpc_control(w(d, 2))
            && v.dpc_status == dpc_status(w(d, 4))
            && v.dpc_error_source_id == w(d, 6)
            && match &v.rp_extensions {
                None => !extensions(d),
                Some(e) => extensions(d)
                    && e.rp_pio_status == rp_pio(dw(d, 8))
                    && e.rp_pio_mask == rp_pio(dw(d, 12))
                    && e.rp_pio_severity == rp_pio(dw(d, 16))
                    && e.rp_pio_syserr == rp_pio(dw(d, 20))
                    && e.rp_pio_exception == rp_pio(dw(d, 24))
                    && e.rp_pio_header_log.0[0] == dw(d, 28)
                    && e.rp_pio_header_log.0[1] == dw(d, 32)
                    && e.rp_pio_header_log.0[2] == dw(d, 36)
                    && e.rp_pio_header_log.0[3] == dw(d, 40)
                    && match e.rp_pio_impspec_log {
                        None => log_size(d) < 5,
                        Some(x) => log_size(d) >= 5 && x == dw(d, 44),
                    }
                    && match &e.rp_pio_tlp_prefix_log {
                        None => log_size(d) <= 5,
                        Some(l) => log_size(d) > 5
                            && l.0[0] == prefix(d, 0)
                            && l.0[1] == prefix(d, 1)
                            && l.0[2] == prefix(d, 2)
                            && l.0[3] == prefix(d, 3),
                    },
            },
    }
}

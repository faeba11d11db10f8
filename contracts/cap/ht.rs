use super::super::api::capabilities::hypertransport::*;
use super::super::{b, dw, f8, w};

pub fn slave_or_primary_command(x: u16) -> SlaveOrPrimaryCommand {
    SlaveOrPrimaryCommand {
        base_unitid: f8(x, 4, 0),
        unit_count: f8(x, 9, 5),
        master_host: b(x, 10),
        default_direction: b(x, 11),
        drop_on_uninitialized_link: b(x, 12),
    }
}
pub fn link_control(x: u16) -> LinkControl {
    LinkControl {
        source_id_enable: b(x, 0),
        crc_flood_enable: b(x, 1),
        crc_start_test: b(x, 2),
        crc_force_error: b(x, 3),
        link_failure: b(x, 4),
        initialization_complete: b(x, 5),
        end_of_chain: b(x, 6),
        transmitter_off: b(x, 7),
        crc_error: f8(x, 11, 8),
        isochronous_flow_control_enable: b(x, 12),
        ldtstop_tristate_enable: b(x, 13),
        extended_ctl_time: b(x, 14),
        enable_64_bit_addressing: b(x, 15),
    }
}
pub fn link_configuration(x: u16) -> LinkConfiguration {
    LinkConfiguration {
        max_link_width_in: link_width(f8(x, 2, 0)),
        doubleword_flow_control_in: b(x, 3),
        max_link_width_out: link_width(f8(x, 6, 4)),
        doubleword_flow_control_out: b(x, 7),
        link_width_in: link_width(f8(x, 10, 8)),
        doubleword_flow_control_in_enable: b(x, 11),
        link_width_out: link_width(f8(x, 14, 12)),
        doubleword_flow_control_out_enable: b(x, 15),
    }
}
pub fn link_width(x: u8) -> LinkWidth {
    match x {
        0b000 => LinkWidth::Width8bits,
        0b001 => LinkWidth::Width16bits,
        0b011 => LinkWidth::Width32bits,
        0b100 => LinkWidth::Width2bits,
        0b101 => LinkWidth::Width4bits,
        0b111 => LinkWidth::NotConnected,
        v => LinkWidth::Reserved(v),
    }
}
pub fn link_frequency_capability(x: u16) -> LinkFrequencyCapability {
    LinkFrequencyCapability {
        supports_200mhz: b(x, 0),
        supports_300mhz: b(x, 1),
        supports_400mhz: b(x, 2),
        supports_500mhz: b(x, 3),
        supports_600mhz: b(x, 4),
        supports_800mhz: b(x, 5),
        supports_1000mhz: b(x, 6),
        supports_1200mhz: b(x, 7),
        supports_1400mhz: b(x, 8),
        supports_1600mhz: b(x, 9),
        supports_1800mhz: b(x, 10),
        supports_2000mhz: b(x, 11),
        supports_2200mhz: b(x, 12),
        supports_2400mhz: b(x, 13),
        supports_2600mhz: b(x, 14),
        supports_vendor_specific: b(x, 15),
    }
}
pub fn feature_capability(x: u16) -> FeatureCapability {
    FeatureCapability {
        isochronous_flow_control_mode: b(x, 0),
        ldtstop: b(x, 1),
        crc_test_mode: b(x, 2),
        extended_ctl_time_required: b(x, 3),
        qword_addressing: b(x, 4),
        unitid_reorder_disable: b(x, 5),
        source_identification_extension: b(x, 6),
        extended_register_set: b(x, 8),
        upstream_configuration_enable: b(x, 9),
    }
}
pub fn error_handling(x: u16) -> ErrorHandling {
    ErrorHandling {
        protocol_error_flood_enable: b(x, 0),
        overflow_error_flood_enable: b(x, 1),
        protocol_error_fatal_enable: b(x, 2),
        overflow_error_fatal_enable: b(x, 3),
        end_of_chain_error_fatal_enable: b(x, 4),
        response_error_fatal_enable: b(x, 5),
        crc_error_fatal_enable: b(x, 6),
        system_error_fatal_enable: b(x, 7),
        chain_fail: b(x, 8),
        response_error: b(x, 9),
        protocol_error_nonfatal_enable: b(x, 10),
        overflow_error_nonfatal_enable: b(x, 11),
        end_of_chain_error_nonfatal_enable: b(x, 12),
        response_error_nonfatal_enable: b(x, 13),
        crc_error_nonfatal_enable: b(x, 14),
        system_error_nonfatal_enable: b(x, 15),
    }
}
pub fn host_or_secondary_command(x: u16) -> HostOrSecondaryCommand {
    HostOrSecondaryCommand {
        warm_reset: b(x, 0),
        double_ended: b(x, 1),
        device_number: f8(x, 6, 2),
        chain_side: b(x, 7),
        host_hide: b(x, 8),
        act_as_slave: b(x, 10),
        host_inbound_end_of_chain_error: b(x, 11),
        drop_on_uninitialized_link: b(x, 12),
    }
}
pub fn revision_id(x: u8) -> RevisionId { RevisionId { minor: f8(x, 4, 0), major: f8(x, 7, 5) } }
/// Link Frequency Extension bit, Link Frequency
pub fn link_frequency(ext: bool, x: u8) -> LinkFrequency {
    const LOW: [LinkFrequency; 16] = [
        LinkFrequency::Rate200MHz, LinkFrequency::Rate300MHz, LinkFrequency::Rate400MHz, LinkFrequency::Rate500MHz,
        LinkFrequency::Rate600MHz, LinkFrequency::Rate800MHz, LinkFrequency::Rate1000MHz, LinkFrequency::Rate1200MHz,
        LinkFrequency::Rate1400MHz, LinkFrequency::Rate1600MHz, LinkFrequency::Rate1800MHz, LinkFrequency::Rate2000MHz,
        LinkFrequency::Rate2200MHz, LinkFrequency::Rate2400MHz, LinkFrequency::Rate2600MHz, LinkFrequency::VendorSpecific,
    ];
    match (ext, x) {
        (false, 0..=15) => LOW[x as usize].clone(),
        (true, 1) => LinkFrequency::Rate2800MHz,
        (true, 2) => LinkFrequency::Rate3000MHz,
        (true, 3) => LinkFrequency::Rate3200MHz,
        _ => LinkFrequency::Reserved(f8(x, 3, 0) | if ext { 0x10 } else { 0 }),
    }
}
pub fn link_error(x: u8) -> LinkError {
    LinkError { protocol_error: b(x, 4), overflow_error: b(x, 5), end_of_chain_error: b(x, 6), ctl_timeout: b(x, 7) }
}
pub fn slave(d: &[u8]) -> SlaveOrPrimaryInterface {
    SlaveOrPrimaryInterface {
        command: slave_or_primary_command(w(d, 0)),
        link_control_0: link_control(w(d, 2)),
        link_config_0: link_configuration(w(d, 4)),
        link_control_1: link_control(w(d, 6)),
        link_config_1: link_configuration(w(d, 8)),
        revision_id: revision_id(d[10]),
        link_freq_0: f8(d[11], 3, 0),
        link_error_0: link_error(d[11]),
        link_freq_cap_0: link_frequency_capability(w(d, 12)),
        feature: feature_capability(d[14] as u16),
        link_freq_1: f8(d[15], 3, 0),
        link_error_1: link_error(d[15]),
        link_freq_cap_1: link_frequency_capability(w(d, 16)),
        enumeration_scratchpad: w(d, 18),
        error_handling: error_handling(w(d, 20)),
        mem_base_upper: d[22],
        mem_limit_upper: d[23],
        bus_number: d[24],
    }
}
pub fn host(d: &[u8]) -> HostOrSecondaryInterface {
    HostOrSecondaryInterface {
        command: host_or_secondary_command(w(d, 0)),
        link_control: link_control(w(d, 2)),
        link_config: link_configuration(w(d, 4)),
        revision_id: revision_id(d[6]),
        link_freq: f8(d[7], 3, 0),
        link_error: link_error(d[7]),
        link_freq_cap: link_frequency_capability(w(d, 8)),
        feature: feature_capability(w(d, 10)),
        enumeration_scratchpad: w(d, 14),
        error_handling: error_handling(w(d, 16)),
        mem_base_upper: d[18],
        mem_limit_upper: d[19],
    }
}
pub fn msi_mapping(d: &[u8]) -> MsiMapping {
    MsiMapping { enabled: b(d[0], 0), fixed: b(d[0], 1), base_address_lower: dw(d, 2), base_address_upper: dw(d, 6) }
}
/// Capability type: bits 15:13 for the two interface blocks, bits 15:11 for all others.
pub fn kind(d: &[u8]) -> u8 { f8(d[1], 7, 3) }
pub fn size(kind: u8) -> usize {
    match kind {
        0..=3 => 26,
        4..=7 => 22,
        0b10101 => 10,
        _ => 2,
    }
}
pub fn ok(d: &[u8]) -> bool { d.len() >= 2 && d.len() >= size(kind(d)) }
pub fn value(d: &[u8]) -> Hypertransport {
    match kind(d) {
        0b00000..=0b00011 => Hypertransport::SlaveOrPrimaryInterface(slave(d)),
        0b00100..=0b00111 => Hypertransport::HostOrSecondaryInterface(host(d)),
        0b01000 => Hypertransport::Switch(Switch {}),
        0b01001 => Hypertransport::ReservedHost(ReservedHost {}),
        0b10000 => Hypertransport::InterruptDiscoveryAndConfiguration(InterruptDiscoveryAndConfiguration {}),
        0b10001 => Hypertransport::RevisionId(revision_id(d[0])),
        0b10010 => Hypertransport::UnitIdClumping(UnitIdClumping {}),
        0b10011 => Hypertransport::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
        0b10100 => Hypertransport::AddressMapping(AddressMapping {}),
        0b10101 => Hypertransport::MsiMapping(msi_mapping(d)),
        0b10110 => Hypertransport::DirectRoute(DirectRoute {}),
        0b10111 => Hypertransport::VCSet(VCSet {}),
        0b11000 => Hypertransport::RetryMode(RetryMode {}),
        0b11001 => Hypertransport::X86Encoding(X86Encoding {}),
        0b11010 => Hypertransport::Gen3(Gen3 {}),
        0b11011 => Hypertransport::FunctionLevelExtension(FunctionLevelExtension {}),
        0b11100 => Hypertransport::PowerManagement(PowerManagement {}),
        0b11101 => Hypertransport::HighNodeCount(HighNodeCount {}),
        v => Hypertransport::Reserved(v),
    }
}
pub fn decode(d: &[u8], r: &Result<Hypertransport, HypertransportError>) -> bool {
    match r {
        Ok(v) => ok(d) && *v == value(d),
        Err(e) => !ok(d) && *e == if d.len() < 2 {
            HypertransportError::CapabilityType
        } else {
            match kind(d) {
                0..=3 => HypertransportError::SlaveOrPrimaryInterface,
                4..=7 => HypertransportError::HostOrSecondaryInterface,
                _ => HypertransportError::MsiMapping,
            }
        },
    }
}

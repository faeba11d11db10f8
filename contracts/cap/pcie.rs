use super::super::api::capabilities::pci_express::*;
use super::super::{b, dw, f8, f16, w};

pub fn device_capabilities(x: u32) -> DeviceCapabilities {
    DeviceCapabilities {
        max_payload_size_supported: max_size(f8(x, 2, 0)),
        phantom_functions_supported: phantom_functions_supported(f8(x, 4, 3)),
        extended_tag_field_supported: extended_tag_field_supported(b(x, 5)),
        endpoint_l0s_acceptable_latency: endpoint_l0s_acceptable_latency(f8(x, 8, 6)),
        endpoint_l1_acceptable_latency: endpoint_l1_acceptable_latency(f8(x, 11, 9)),
        attention_button_present: b(x, 12),
        attention_indicator_present: b(x, 13),
        power_indicator_present: b(x, 14),
        role_based_error_reporting: b(x, 15),
        captured_slot_power_limit: slot_power_limit(f8(x, 25, 18), f8(x, 27, 26)),
        function_level_reset_capability: b(x, 28),
    }
}
pub fn max_size(x: u8) -> MaxSize {
    match x {
        0b000 => MaxSize::B128,
        0b001 => MaxSize::B256,
        0b010 => MaxSize::B512,
        0b011 => MaxSize::B1024,
        0b100 => MaxSize::B2048,
        0b101 => MaxSize::B4096,
        0b110 => MaxSize::Reserved0,
        _ => MaxSize::Reserved1,
    }
}
pub fn phantom_functions_supported(x: u8) -> PhantomFunctionsSupported {
    match x {
        0b00 => PhantomFunctionsSupported::NoBits,
        0b01 => PhantomFunctionsSupported::MostSignificantBit,
        0b10 => PhantomFunctionsSupported::TwoMostSignificantBits,
        _ => PhantomFunctionsSupported::AllBits,
    }
}
pub fn endpoint_l0s_acceptable_latency(x: u8) -> EndpointL0sAcceptableLatency {
    match x {
        0b000 => EndpointL0sAcceptableLatency::Max64ns,
        0b001 => EndpointL0sAcceptableLatency::Max128ns,
        0b010 => EndpointL0sAcceptableLatency::Max256ns,
        0b011 => EndpointL0sAcceptableLatency::Max512ns,
        0b100 => EndpointL0sAcceptableLatency::Max1us,
        0b101 => EndpointL0sAcceptableLatency::Max2us,
        0b110 => EndpointL0sAcceptableLatency::Max4us,
        _ => EndpointL0sAcceptableLatency::NoLimit,
    }
}
pub fn endpoint_l1_acceptable_latency(x: u8) -> EndpointL1AcceptableLatency {
    match x {
        0b000 => EndpointL1AcceptableLatency::Max1us,
        0b001 => EndpointL1AcceptableLatency::Max2us,
        0b010 => EndpointL1AcceptableLatency::Max4us,
        0b011 => EndpointL1AcceptableLatency::Max8us,
        0b100 => EndpointL1AcceptableLatency::Max16us,
        0b101 => EndpointL1AcceptableLatency::Max32us,
        0b110 => EndpointL1AcceptableLatency::Max64us,
        _ => EndpointL1AcceptableLatency::NoLimit,
    }
}
pub fn device_control(x: u16) -> DeviceControl {
    DeviceControl {
        correctable_error_reporting_enable: b(x, 0),
        non_fatal_error_reporting_enable: b(x, 1),
        fatal_error_reporting_enable: b(x, 2),
        unsupported_request_reporting_enable: b(x, 3),
        enable_relaxed_ordering: b(x, 4),
        max_payload_size: max_size(f8(x, 7, 5)),
        extended_tag_field_enable: b(x, 8),
        phantom_functions_enable: b(x, 9),
        aux_power_pm_enable: b(x, 10),
        enable_no_snoop: b(x, 11),
        max_read_request_size: max_size(f8(x, 14, 12)),
        bcre_or_flreset: b(x, 15),
    }
}
pub fn device_status(x: u16) -> DeviceStatus {
    DeviceStatus {
        correctable_error_detected: b(x, 0),
        non_fatal_error_detected: b(x, 1),
        fatal_error_detected: b(x, 2),
        unsupported_request_detected: b(x, 3),
        aux_power_detected: b(x, 4),
        transactions_pending: b(x, 5),
    }
}
pub fn link_capabilities(x: u32) -> LinkCapabilities {
    LinkCapabilities {
        max_link_speed: link_speed(f8(x, 3, 0)),
        maximum_link_width: link_width(f8(x, 9, 4)),
        active_state_power_management_support: active_state_power_management(f8(x, 11, 10)),
        l0s_exit_latency: l0s_exit_latency(f8(x, 14, 12)),
        l1_exit_latency: l1_exit_latency(f8(x, 17, 15)),
        clock_power_management: b(x, 18),
        surprise_down_error_reporting_capable: b(x, 19),
        data_link_layer_link_active_reporting_capable: b(x, 20),
        link_bandwidth_notification_capability: b(x, 21),
        aspm_optionality_compliance: b(x, 22),
        port_number: f8(x, 31, 24),
    }
}
pub fn link_speed(x: u8) -> LinkSpeed {
    match x {
        0b0001 => LinkSpeed::Rate2GTps,
        0b0010 => LinkSpeed::Rate5GTps,
        0b0011 => LinkSpeed::Rate8GTps,
        0b0100 => LinkSpeed::Rate16GTps,
        0b0101 => LinkSpeed::Rate32GTps,
        0b0110 => LinkSpeed::Rate64GTps,
        0b0111 => LinkSpeed::RateRsvdp,
        v => LinkSpeed::Reserved(v),
    }
}
pub fn link_width(x: u8) -> LinkWidth {
    match x {
        0b00_0001 => LinkWidth::X1,
        0b00_0010 => LinkWidth::X2,
        0b00_0100 => LinkWidth::X4,
        0b00_1000 => LinkWidth::X8,
        0b00_1100 => LinkWidth::X12,
        0b01_0000 => LinkWidth::X16,
        0b10_0000 => LinkWidth::X32,
        v => LinkWidth::Reserved(v),
    }
}
pub fn active_state_power_management(x: u8) -> ActiveStatePowerManagement {
    match x {
        0b00 => ActiveStatePowerManagement::NoAspm,
        0b01 => ActiveStatePowerManagement::L0s,
        0b10 => ActiveStatePowerManagement::L1,
        _ => ActiveStatePowerManagement::L0sAndL1,
    }
}
pub fn l0s_exit_latency(x: u8) -> L0sExitLatency {
    match x {
        0b000 => L0sExitLatency::Lt64ns,
        0b001 => L0sExitLatency::Ge64nsAndLt128ns,
        0b010 => L0sExitLatency::Ge128nsAndLt256ns,
        0b011 => L0sExitLatency::Ge256nsAndLt512ns,
        0b100 => L0sExitLatency::Ge512nsAndLt1us,
        0b101 => L0sExitLatency::Ge1usAndLt2us,
        0b110 => L0sExitLatency::Ge2usAndLt4us,
        _ => L0sExitLatency::Gt4ns,
    }
}
pub fn l1_exit_latency(x: u8) -> L1ExitLatency {
    match x {
        0b000 => L1ExitLatency::Lt1us,
        0b001 => L1ExitLatency::Ge1usAndLt2us,
        0b010 => L1ExitLatency::Ge2usAndLt4us,
        0b011 => L1ExitLatency::Ge4usAndLt8us,
        0b100 => L1ExitLatency::Ge8usAndLt16us,
        0b101 => L1ExitLatency::Ge16usAndLt32us,
        0b110 => L1ExitLatency::Ge32usAndLt64us,
        _ => L1ExitLatency::Gt64ns,
    }
}
pub fn link_control(x: u16) -> LinkControl {
    LinkControl {
        active_state_power_management_control: active_state_power_management(f8(x, 1, 0)),
        read_completion_boundary: read_completion_boundary(b(x, 3)),
        link_disable: b(x, 4),
        retrain_link: b(x, 5),
        common_clock_configuration: b(x, 6),
        extended_synch: b(x, 7),
        enable_clock_power_management: b(x, 8),
        hardware_autonomous_width_disable: b(x, 9),
        link_bandwidth_management_interrupt_enable: b(x, 10),
        link_autonomous_bandwidth_interrupt_enable: b(x, 11),
    }
}
pub fn link_status(x: u16) -> LinkStatus {
    LinkStatus {
        current_link_speed: link_speed(f8(x, 3, 0)),
        negotiated_link_width: link_width(f8(x, 9, 4)),
        link_training_error: b(x, 10),
        link_training: b(x, 11),
        slot_clock_configuration: b(x, 12),
        data_link_layer_link_active: b(x, 13),
        link_bandwidth_management_status: b(x, 14),
        link_autonomous_bandwidth_status: b(x, 15),
    }
}
pub fn slot_capabilities(x: u32) -> SlotCapabilities {
    SlotCapabilities {
        attention_button_present: b(x, 0),
        power_controller_present: b(x, 1),
        mrl_sensor_present: b(x, 2),
        attention_indicator_present: b(x, 3),
        power_indicator_present: b(x, 4),
        hot_plug_surprise: b(x, 5),
        hot_plug_capable: b(x, 6),
        slot_power_limit: slot_power_limit(f8(x, 14, 7), f8(x, 16, 15)),
        electromechanical_interlock_present: b(x, 17),
        no_command_completed_support: b(x, 18),
        physical_slot_number: f16(x, 31, 19),
    }
}
pub fn slot_control(x: u16) -> SlotControl {
    SlotControl {
        attention_button_pressed_enable: b(x, 0),
        power_fault_detected_enable: b(x, 1),
        mrl_sensor_changed_enable: b(x, 2),
        presence_detect_changed_enable: b(x, 3),
        command_completed_interrupt_enable: b(x, 4),
        hot_plug_interrupt_enable: b(x, 5),
        attention_indicator_control: indicator_control(f8(x, 7, 6)),
        power_indicator_control: indicator_control(f8(x, 9, 8)),
        power_controller_control: b(x, 10),
        electromechanical_interlock_control: b(x, 11),
        data_link_layer_state_changed_enable: b(x, 12),
    }
}
pub fn indicator_control(x: u8) -> IndicatorControl {
    match x {
        0b00 => IndicatorControl::Reserved,
        0b01 => IndicatorControl::On,
        0b10 => IndicatorControl::Blink,
        _ => IndicatorControl::Off,
    }
}
pub fn slot_status(x: u16) -> SlotStatus {
    SlotStatus {
        attention_button_pressed: b(x, 0),
        power_fault_detected: b(x, 1),
        mrl_sensor_changed: b(x, 2),
        presence_detect_changed: b(x, 3),
        command_completed: b(x, 4),
        mrl_sensor_state: b(x, 5),
        presence_detect_state: b(x, 6),
        electromechanical_interlock_status: b(x, 7),
        data_link_layer_state_changed: b(x, 8),
    }
}
pub fn root_control(x: u16) -> RootControl {
    RootControl {
        system_error_on_correctable_error_enable: b(x, 0),
        system_error_on_non_fatal_error_enable: b(x, 1),
        system_error_on_fatal_error_enable: b(x, 2),
        pme_interrupt_enable: b(x, 3),
        crs_software_visibility_enable: b(x, 4),
    }
}
pub fn root_capabilities(x: u16) -> RootCapabilities {
    RootCapabilities {
        crs_software_visibility: b(x, 0),
    }
}
pub fn root_status(x: u32) -> RootStatus {
    RootStatus {
        pme_requester_id: f16(x, 15, 0),
        pme_status: b(x, 16),
        pme_pending: b(x, 17),
    }
}
pub fn device_capabilities2(x: u32) -> DeviceCapabilities2 {
    DeviceCapabilities2 {
        completion_timeout_ranges_supported: completion_timeout_ranges(f8(x, 3, 0)),
        completion_timeout_disable_supported: b(x, 4),
        ari_forwarding_supported: b(x, 5),
        atomic_op_routing_supported: b(x, 6),
        u32_atomicop_completer_supported: b(x, 7),
        u64_atomicop_completer_supported: b(x, 8),
        u128_cas_completer_supported: b(x, 9),
        no_ro_enabled_pr_pr_passing: b(x, 10),
        ltr_mechanism_supported: b(x, 11),
        tph_completer_supported: tph_completer(f8(x, 13, 12)),
        ln_system_cls: ln_system_cls(f8(x, 15, 14)),
        support_10bit_tag_completer: b(x, 16),
        support_10bit_tag_requester: b(x, 17),
        obff_supported: obff(f8(x, 19, 18)),
        extended_fmt_field_supported: b(x, 20),
        end_end_tlp_prefix_supported: b(x, 21),
        max_end_end_tlp_prefixes: max_end_end_tlp_prefixes(f8(x, 23, 22)),
        emergency_power_reduction_supported: emergency_power_reduction(f8(x, 25, 24)),
        emergency_power_reduction_initialization_required: b(x, 26),
        frs_supported: b(x, 31),
    }
}
pub fn completion_timeout_ranges(x: u8) -> CompletionTimeoutRanges {
    match x {
        0b0000 => CompletionTimeoutRanges::NotSupported,
        0b0001 => CompletionTimeoutRanges::RangeA,
        0b0010 => CompletionTimeoutRanges::RangeB,
        0b0011 => CompletionTimeoutRanges::RangesAB,
        0b0110 => CompletionTimeoutRanges::RangesBC,
        0b0111 => CompletionTimeoutRanges::RangesABC,
        0b1110 => CompletionTimeoutRanges::RangesBCD,
        0b1111 => CompletionTimeoutRanges::RangesABCD,
        v => CompletionTimeoutRanges::Reserved(v),
    }
}
pub fn tph_completer(x: u8) -> TphCompleter {
    match x {
        0b00 => TphCompleter::NotSupported,
        0b01 => TphCompleter::Tph,
        0b10 => TphCompleter::Reserved,
        _ => TphCompleter::TphAndExtendedTph,
    }
}
pub fn ln_system_cls(x: u8) -> LnSystemCls {
    match x {
        0b00 => LnSystemCls::NotSupported,
        0b01 => LnSystemCls::Cachelines64Byte,
        0b10 => LnSystemCls::Cachelines128Byte,
        _ => LnSystemCls::Reserved,
    }
}
pub fn obff(x: u8) -> Obff {
    match x {
        0b00 => Obff::NotSupported,
        0b01 => Obff::Message,
        0b10 => Obff::Wake,
        _ => Obff::WakeAndMessage,
    }
}
pub fn max_end_end_tlp_prefixes(x: u8) -> MaxEndEndTlpPrefixes {
    match x {
        0b00 => MaxEndEndTlpPrefixes::Max4,
        0b01 => MaxEndEndTlpPrefixes::Max1,
        0b10 => MaxEndEndTlpPrefixes::Max2,
        _ => MaxEndEndTlpPrefixes::Max3,
    }
}
pub fn emergency_power_reduction(x: u8) -> EmergencyPowerReduction {
    match x {
        0b00 => EmergencyPowerReduction::NotSupported,
        0b01 => EmergencyPowerReduction::DeviceSpecific,
        0b10 => EmergencyPowerReduction::FormFactorOrDeviceSpecific,
        _ => EmergencyPowerReduction::Reserved,
    }
}
pub fn device_control2(x: u16) -> DeviceControl2 {
    DeviceControl2 {
        completion_timeout_value: completion_timeout_value(f8(x, 3, 0)),
        completion_timeout_disable: b(x, 4),
        ari_forwarding_enable: b(x, 5),
        atomic_op_requester_enable: b(x, 6),
        atomic_op_egress_blocking: b(x, 7),
        ido_request_enable: b(x, 8),
        ido_completion_enable: b(x, 9),
        ltr_mechanism_enable: b(x, 10),
        emergency_power_reduction_request: b(x, 11),
        enable_10bit_tag_requester: b(x, 12),
        obff_enable: obff_enable(f8(x, 14, 13)),
        end_end_tlp_prefix_blocking: end_end_tlp_prefix_blocking(b(x, 15)),
    }
}
pub fn completion_timeout_value(x: u8) -> CompletionTimeoutValue {
    match x {
        0b0000 => CompletionTimeoutValue::DefaultRange50usTo50ms,
        0b0001 => CompletionTimeoutValue::RangeA50usTo100us,
        0b0010 => CompletionTimeoutValue::RangeA1msTo10ms,
        0b0101 => CompletionTimeoutValue::RangeB16msTo55mss,
        0b0110 => CompletionTimeoutValue::RangeB65msTo210ms,
        0b1001 => CompletionTimeoutValue::RangeC260msTo900ms,
        0b1010 => CompletionTimeoutValue::RangeC1000msTo3500ms,
        0b1101 => CompletionTimeoutValue::RangeD4sTo13s,
        0b1110 => CompletionTimeoutValue::RangeD17sTo64s,
        v => CompletionTimeoutValue::Reserved(v),
    }
}
pub fn obff_enable(x: u8) -> ObffEnable {
    match x {
        0b00 => ObffEnable::Disabled,
        0b01 => ObffEnable::MessageSignalingA,
        0b10 => ObffEnable::MessageSignalingB,
        _ => ObffEnable::WakeSignaling,
    }
}
pub fn link_capabilities2(x: u32) -> LinkCapabilities2 {
    LinkCapabilities2 {
        supported_link_speeds_vector: supported_link_speeds_vector(f8(x, 7, 1)),
        crosslink_supported: b(x, 8),
        lower_skp_os_generation_supported_speeds_vector: supported_link_speeds_vector(f8(x, 15, 9)),
        lower_skp_os_reception_supported_speeds_vector: supported_link_speeds_vector(f8(x, 22, 16)),
        retimer_presence_detect_supported: b(x, 23),
        two_retimers_presence_detect_supported: b(x, 24),
        drs_supported: b(x, 31),
    }
}
pub fn supported_link_speeds_vector(x: u8) -> SupportedLinkSpeedsVector {
    SupportedLinkSpeedsVector {
        speed_2_5_gtps: b(x, 0),
        speed_5_0_gtps: b(x, 1),
        speed_8_0_gtps: b(x, 2),
        speed_16_0_gtps: b(x, 3),
        speed_32_0_gtps: b(x, 4),
        speed_64_0_gtps: b(x, 5),
        reserved: b(x, 6),
    }
}
pub fn link_control2(x: u16) -> LinkControl2 {
    LinkControl2 {
        target_link_speed: link_speed(f8(x, 3, 0)),
        enter_compliance: b(x, 4),
        hardware_autonomous_speed_disable: b(x, 5),
        selectable_de_emphasis: de_emphasis(b(x, 6)),
        transmit_margin: transmit_margin(f8(x, 9, 7)),
        enter_modified_compliance: b(x, 10),
        compliance_sos: b(x, 11),
        compliance_preset_or_de_emphasis: compliance_preset_or_de_emphasis(f8(x, 15, 12)),
    }
}
pub fn link_status2(x: u16) -> LinkStatus2 {
    LinkStatus2 {
        current_de_emphasis_level: de_emphasis(b(x, 0)),
        equalization_complete: b(x, 1),
        equalization_phase_1_successful: b(x, 2),
        equalization_phase_2_successful: b(x, 3),
        equalization_phase_3_successful: b(x, 4),
        link_equalization_request: b(x, 5),
        retimer_presence_detected: b(x, 6),
        two_retimers_presence_detected: b(x, 7),
        crosslink_resolution: crosslink_resolution(f8(x, 9, 8)),
        downstream_component_presence: downstream_component_presence(f8(x, 14, 12)),
        drs_message_received: b(x, 15),
    }
}
pub fn crosslink_resolution(x: u8) -> CrosslinkResolution {
    match x {
        0b00 => CrosslinkResolution::NotSupported,
        0b01 => CrosslinkResolution::UpstreamPort,
        0b10 => CrosslinkResolution::DownstreamPort,
        _ => CrosslinkResolution::NotCompleted,
    }
}
pub fn downstream_component_presence(x: u8) -> DownstreamComponentPresence {
    match x {
        0b000 => DownstreamComponentPresence::DownNotDetermined,
        0b001 => DownstreamComponentPresence::DownNotPresent,
        0b010 => DownstreamComponentPresence::DownPresent,
        0b100 => DownstreamComponentPresence::UpPresent,
        0b101 => DownstreamComponentPresence::UpPresentAndDrsReceived,
        v => DownstreamComponentPresence::Reserved(v),
    }
}
pub fn transmitter_preset(x: u8) -> TransmitterPreset {
    match x {
        0b0000 => TransmitterPreset::P0,
        0b0001 => TransmitterPreset::P1,
        0b0010 => TransmitterPreset::P2,
        0b0011 => TransmitterPreset::P3,
        0b0100 => TransmitterPreset::P4,
        0b0101 => TransmitterPreset::P5,
        0b0110 => TransmitterPreset::P6,
        0b0111 => TransmitterPreset::P7,
        0b1000 => TransmitterPreset::P8,
        0b1001 => TransmitterPreset::P9,
        0b1010 => TransmitterPreset::P10,
        v => TransmitterPreset::Reserved(v),
    }
}
pub fn receiver_preset_hint(x: u8) -> ReceiverPresetHint {
    match x {
        0b000 => ReceiverPresetHint::Minus6dB,
        0b001 => ReceiverPresetHint::Minus7dB,
        0b010 => ReceiverPresetHint::Minus8dB,
        0b011 => ReceiverPresetHint::Minus9dB,
        0b100 => ReceiverPresetHint::Minus10dB,
        0b101 => ReceiverPresetHint::Minus11dB,
        0b110 => ReceiverPresetHint::Minus12dB,
        _ => ReceiverPresetHint::Reserved,
    }
}
pub fn extended_tag_field_supported(x: bool) -> ExtendedTagFieldSupported {
    if x { ExtendedTagFieldSupported::Eight } else { ExtendedTagFieldSupported::Five }
}
pub fn slot_power_limit(value: u8, scale: u8) -> SlotPowerLimit {
    SlotPowerLimit { value, scale: match scale { 0 => 1.0, 1 => 0.1, 2 => 0.01, _ => 0.001 } }
}
pub fn read_completion_boundary(x: bool) -> ReadCompletionBoundary {
    if x { ReadCompletionBoundary::B128 } else { ReadCompletionBoundary::B64 }
}
pub fn end_end_tlp_prefix_blocking(x: bool) -> EndEndTlpPrefixBlocking {
    if x { EndEndTlpPrefixBlocking::ForwardingBlocked } else { EndEndTlpPrefixBlocking::ForwardingEnabled }
}
pub fn de_emphasis(x: bool) -> DeEmphasis { if x { DeEmphasis::Minus3_5dB } else { DeEmphasis::Minus6dB } }
pub fn transmit_margin(x: u8) -> TransmitMargin { TransmitMargin(x) }
pub fn compliance_preset_or_de_emphasis(x: u8) -> CompliancePresetOrDeEmphasis { CompliancePresetOrDeEmphasis(x) }

// The register blocks, at their offsets behind the capability header
pub fn device(d: &[u8]) -> Device {
    Device { capabilities: device_capabilities(dw(d, 2)), control: device_control(w(d, 6)), status: device_status(w(d, 8)) }
}
pub fn link(d: &[u8]) -> Link {
    Link { capabilities: link_capabilities(dw(d, 10)), control: link_control(w(d, 14)), status: link_status(w(d, 16)) }
}
pub fn slot(d: &[u8]) -> Slot {
    Slot { capabilities: slot_capabilities(dw(d, 18)), control: slot_control(w(d, 22)), status: slot_status(w(d, 24)) }
}
pub fn root(d: &[u8]) -> Option<Root> {
    if d.len() < 34 {
        return None;
    }
    Some(Root { control: root_control(w(d, 26)), capabilities: root_capabilities(w(d, 28)), status: root_status(dw(d, 30)) })
}
/// The second set of registers exists since version 2 of the capability.
pub fn second(d: &[u8], end: usize) -> bool { version(d) > 1 && d.len() >= end }
pub fn device_2(d: &[u8]) -> Option<Device2> {
    if !second(d, 42) {
        return None;
    }
    Some(Device2 { capabilities: device_capabilities2(dw(d, 34)), control: device_control2(w(d, 38)), status: DeviceStatus2 {} })
}
pub fn link_2(d: &[u8]) -> Option<Link2> {
    if !second(d, 50) {
        return None;
    }
    Some(Link2 { capabilities: link_capabilities2(dw(d, 42)), control: link_control2(w(d, 46)), status: link_status2(w(d, 48)) })
}
pub fn slot_2(d: &[u8]) -> Option<Slot2> {
    if !second(d, 58) {
        return None;
    }
    Some(Slot2 { capabilities: SlotCapabilities2 {}, control: SlotControl2 {}, status: SlotStatus2 {} })
}
pub fn version(d: &[u8]) -> u8 { f8(d[0], 3, 0) }
pub fn kind(d: &[u8]) -> u8 { f8(d[0], 7, 4) }
/// Root ports and event collectors have the root registers, which then have to be there.
pub fn needs_root(kind: u8) -> bool { kind == 4 || kind == 10 }
pub fn ok(d: &[u8]) -> bool { d.len() >= if d.len() >= 26 && needs_root(kind(d)) { 34 } else { 26 } }
/// Everything but the blocks that depend on the device/port type.
pub fn decode_common(d: &[u8], r: &Result<PciExpress, PciExpressError>) -> bool {
    match r {
        Err(PciExpressError::RequiredBytesSlice) => d.len() < 26,
        Err(PciExpressError::RootBytesSlice) => d.len() >= 26 && !ok(d),
        Ok(v) => ok(d)
            && v.version == version(d)
            && v.slot_implemented == b(d[1], 0)
            && v.interrupt_message_number == f8(d[1], 5, 1)
            && v.tcs_routing_support == b(d[1], 6)
            && v.device == device(d)
            && v.device_2 == device_2(d),
    }
}
pub fn device_type(kind: u8, link: Link, slot: Slot, root: Option<Root>, link_2: Option<Link2>, slot_2: Option<Slot2>) -> Result<DeviceType, PciExpressError> {
    Ok(match kind {
        0 => DeviceType::Endpoint { link, link_2 },
        1 => DeviceType::LegacyEndpoint { link, link_2 },
        4 => DeviceType::RootPort { link, link_2, slot, slot_2, root: root.ok_or(PciExpressError::RootBytesSlice)? },
        5 => DeviceType::UpstreamPort { link, link_2 },
        6 => DeviceType::DownstreamPort { link, link_2, slot, slot_2 },
        7 => DeviceType::PcieToPciBridge { link, link_2 },
        8 => DeviceType::PciToPcieBridge { link, link_2, slot, slot_2 },
        9 => DeviceType::RootComplexIntegratedEndpoint,
        10 => DeviceType::RootComplexEventCollector { root: root.ok_or(PciExpressError::RootBytesSlice)? },
        id => DeviceType::Reserved { id, link, link_2, slot, slot_2, root },
    })
}
/// The blocks of the device/port type.
pub fn decode_type(d: &[u8], t: &DeviceType) -> bool {
    let k = kind(d);
    match t {
        DeviceType::Endpoint { link: l, link_2: l2 } => k == 0 && *l == link(d) && *l2 == link_2(d),
        DeviceType::LegacyEndpoint { link: l, link_2: l2 } => k == 1 && *l == link(d) && *l2 == link_2(d),
        DeviceType::UpstreamPort { link: l, link_2: l2 } => k == 5 && *l == link(d) && *l2 == link_2(d),
        DeviceType::PcieToPciBridge { link: l, link_2: l2 } => k == 7 && *l == link(d) && *l2 == link_2(d),
        DeviceType::RootComplexIntegratedEndpoint => k == 9,
        DeviceType::RootComplexEventCollector { root: r } => k == 10 && root(d).as_ref() == Some(r),
        DeviceType::RootPort { link: l, link_2: l2, slot: s, slot_2: s2, root: r } =>
            k == 4 && *l == link(d) && *l2 == link_2(d) && *s == slot(d) && *s2 == slot_2(d) && root(d).as_ref() == Some(r),
        DeviceType::DownstreamPort { link: l, link_2: l2, slot: s, slot_2: s2 } =>
            k == 6 && *l == link(d) && *l2 == link_2(d) && *s == slot(d) && *s2 == slot_2(d),
        DeviceType::PciToPcieBridge { link: l, link_2: l2, slot: s, slot_2: s2 } =>
            k == 8 && *l == link(d) && *l2 == link_2(d) && *s == slot(d) && *s2 == slot_2(d),
        DeviceType::Reserved { id, link: l, link_2: l2, slot: s, slot_2: s2, root: r } =>
            !matches!(k, 0 | 1 | 4..=10) && *id == k && *l == link(d) && *l2 == link_2(d) && *s == slot(d) && *s2 == slot_2(d) && *r == root(d),
    }
}
pub fn decode(d: &[u8], r: &Result<PciExpress, PciExpressError>) -> bool {
    decode_common(d, r) && match r {
        Ok(v) => decode_type(d, &v.device_type),
        Err(_) => true,
    }
}

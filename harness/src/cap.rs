pub mod pm {
    use crate::contracts::cap::pm as spec;
    use crate::util::*;
    use pcics::capabilities::power_management_interface::*;
    dec! { decode: PowerManagementInterface, spec::decode; }
    regn! {
        aux_current: AuxCurrent, u8, 7, spec::aux_current;
        power_state: PowerState, u8, 3, spec::power_state;
        data_scale: DataScale, u8, 3, spec::data_scale;
    }
    reg! { data_select: DataSelect, u8, spec::data_select; }
    proof!(data, {
        let d: [u8; 6] = kani::any();
        let c = spec::value(&d);
        assert!(spec::data(&c, &c.data()));
    });
    proof!(encode_data_select, {
        let x: u8 = kani::any();
        assert!(u8::from(DataSelect::from(x)) == x);
    });
}
pub mod msi {
    use crate::contracts::cap::msi as spec;
    use crate::util::*;
    use pcics::capabilities::message_signaled_interrups::*;
    dec! { decode: MessageSignaledInterrups, spec::decode; }
    proof!(number_of_vectors, {
        let x: u8 = kani::any();
        kani::assume(x <= 7);
        assert!(MultipleMessage(x).number_of_vectors() as u32 == 1u32 << x);
    });
}
pub mod msi_x {
    use crate::contracts::cap::msi_x as spec;
    use crate::util::*;
    use pcics::capabilities::msi_x::*;
    reg! {
        message_control: MessageControl, u16, spec::message_control;
        table: Table, u32, spec::table;
        pending_bit_array: PendingBitArray, u32, spec::pending_bit_array;
        bir: Bir, u8, spec::bir;
    }
    dec! { decode: MsiX, spec::decode; }
}
pub mod agp {
    use crate::contracts::cap::agp as spec;
    use crate::util::*;
    use pcics::capabilities::accelerated_graphics_port::*;
    reg! {
        identifier: Identifier, u16, spec::identifier;
        status: Status, u32, spec::status;
        command: Command, u32, spec::command;
        isochronous_status: IsochronousStatus, u32, spec::isochronous_status;
        control: Control, u32, spec::control;
        isochronous_command: IsochronousCommand, u16, spec::isochronous_command;
        cal_cycle: CalCycle, u8, spec::cal_cycle;
        data_rate_support: DataRateSupport, u8, spec::data_rate_support;
        data_rate_enabled: DataRateEnabled, u8, spec::data_rate_enabled;
    }
    dec! { decode: AcceleratedGraphicsPort, spec::decode; }
    proof!(encode_rates, {
        let x: u8 = kani::any();
        assert!(u8::from(CalCycle::from(x)) == x);
        assert!(u8::from(DataRateSupport::from(x)) == x);
        assert!(u8::from(DataRateEnabled::from(x)) == x);
    });
}
pub mod small {
    use crate::contracts::cap::small as spec;
    use crate::util::*;
    use pcics::capabilities::{advanced_features::*, bridge_subsystem_vendor_id::*, debug_port::*, sata::*, slot_identification::*, vital_product_data::*};
    dec! {
        vpd: VitalProductData, spec::vpd::decode;
        slot_id: SlotIdentification, spec::slot_id::decode;
        bsvid: BridgeSubsystemVendorId, spec::bsvid::decode;
        debug_port: DebugPort, spec::debug_port::decode;
        sata: Sata, spec::sata::decode;
        af: AdvancedFeatures, spec::af::decode;
    }
    reg! { sata_bar_location: BarLocation, u8, spec::sata::bar_location; }
    proof!(sata_bar_offset, {
        let x: u32 = kani::any();
        kani::assume(x < 1 << 20);
        assert!(BarOffset(x).value() == x << 2);
    });
}
pub mod pci_x {
    use crate::contracts::cap::pci_x as spec;
    use crate::contracts::f8;
    use crate::util::*;
    use pcics::capabilities::pci_x::*;
    reg! {
        command: Command, u16, spec::command;
        status: Status, u32, spec::status;
        ecc_control_and_status: EccControlAndStatus, u32, spec::ecc_control_and_status;
        secondary_status: SecondaryStatus, u16, spec::secondary_status;
        bridge_status: BridgeStatus, u32, spec::bridge_status;
        syndrome: Syndrome, u8, spec::syndrome;
        device_complexity: DeviceComplexity, bool, spec::device_complexity;
    }
    regn! {
        ecc_error_phase: EccErrorPhase, u8, 7, spec::ecc_error_phase;
        secondary_bus_mode: SecondaryBusMode, u8, 15, spec::secondary_bus_mode;
        error_protection: ErrorProtection, u8, 15, spec::error_protection;
        secondary_bus_frequency: SecondaryBusFrequency, u8, 15, spec::secondary_bus_frequency;
    }
    dec! {
        decode: PciX, spec::decode;
        decode_bridge: PciXBridge, spec::bridge_decode;
    }
    proof!(values, {
        let x: u8 = kani::any();
        kani::assume(x <= 7);
        assert!(MaximumOutstandingSplitTransactions(x).value() == spec::max_split(x));
        assert!(MaximumCumulativeReadSize(x).bytes() == 1024usize << x);
        assert!(MaximumCumulativeReadSize(x).adqs() == 8usize << x);
        if x <= 3 {
            assert!(MaximumByteCount(x).value() == 512usize << x);
        }
    });
    proof!(encode_bus_mode, {
        let x: u16 = kani::any();
        assert!(SecondaryStatus::from(x).secondary_bus_mode_and_frequency() == f8(x, 9, 6));
    });
}
pub mod fpb {
    use crate::contracts::cap::fpb as spec;
    use crate::util::*;
    use pcics::capabilities::flattening_portal_bridge::*;
    reg! {
        capabilities: FpbCapabilities, u32, spec::fpb_capabilities;
        vector_access_control: FpbVectorAccessControl, u32, spec::fpb_vector_access_control;
        rid_vector_size: FpbRidVectorSizeSupported, u8, spec::fpb_rid_vector_size_supported;
        mem_low_vector_size: FpbMemLowVectorSizeSupported, u8, spec::fpb_mem_low_vector_size_supported;
        mem_high_vector_size: FpbMemHighVectorSizeSupported, u8, spec::fpb_mem_high_vector_size_supported;
        rid_granularity: FpbRidVectorGranularity, u8, spec::fpb_rid_vector_granularity;
        mem_low_granularity: FpbMemLowVectorGranularity, u8, spec::fpb_mem_low_vector_granularity;
        mem_high_granularity: FpbMemHighVectorGranularity, u8, spec::fpb_mem_high_vector_granularity;
    }
    regn! { vector_select: FpbVectorSelect, u8, 3, spec::fpb_vector_select; }
    proof!(mem_low, {
        let x: u32 = kani::any();
        assert!(spec::mem_low(x, &FpbMemLowVectorControl::from(x)));
    });
    proof!(mem_high, {
        let (x, y): (u32, u32) = (kani::any(), kani::any());
        assert!(spec::mem_high(x, y, &FpbMemHighVectorControl::new(x, y)));
    });
    dec! { decode: FlatteningPortalBridge, spec::decode; }
}
pub mod ea {
    use crate::contracts::cap::ea as spec;
    use crate::util::*;
    use pcics::capabilities::enhanced_allocation::*;
    use pcics::header::Header;
    reg! {
        resource_definition: ResourceDefinition, u8, spec::resource_definition;
    }
    regn! { bar_equivalent: BarEquivalentIndicator, u8, 15, spec::bar_equivalent_indicator; }
    proof!(decode, {
        let mut h = [0u8; 64];
        h[0xe] = kani::any();
        let header = Header::from(h);
        let bridge = h[0xe] & 0x7f == 1;
        let d = any_slice();
        let r = EnhancedAllocation::try_new(d, &header);
        kani::cover!(r.is_ok() && bridge);
        kani::cover!(r.is_ok() && !bridge);
        kani::cover!(r.is_err());
        assert!(spec::decode(d, bridge, &r));
        if let Ok(mut v) = r {
            // the entries start after the first DW(s), as many as their number says
            let d = &d[if bridge { 6 } else { 2 }..];
            let want = if v.num_entries == 0 { None } else { spec::entry(d) };
            assert!(v.entries.next() == want.map(|x| x.0));
        }
    });
    // Three entries in a row, from any bytes and any count.
    bounded!(entries, {
        let d = any_slice();
        let mut count: u8 = kani::any();
        let mut it = EnhancedAllocationEntries::new(d, count);
        let mut rest = Some(d);
        let mut i = 0;
        while i < 3 {
            let want = match rest {
                Some(d) if count > 0 => spec::entry(d),
                _ => None,
            };
            let got = it.next();
            match want {
                None => {
                    assert!(got.is_none());
                    rest = None;
                }
                Some((e, next)) => {
                    assert!(got == Some(e));
                    count -= 1;
                    rest = rest.map(|d| &d[next..]);
                }
            }
            i += 1;
        }
        kani::cover!(rest.is_some());
    });
}
pub mod vendor {
    use crate::contracts::cap::vendor as spec;
    use crate::util::*;
    use pcics::capabilities::vendor_specific::*;
    use pcics::header::Header;
    dec! { virtio: Virtio, spec::virtio_decode; }
    proof!(decode, {
        let mut h = [0u8; 64];
        let (vendor, device): (u16, u16) = (kani::any(), kani::any());
        h[0] = vendor as u8;
        h[1] = (vendor >> 8) as u8;
        h[2] = device as u8;
        h[3] = (device >> 8) as u8;
        let header = Header::from(h);
        let d = any_slice();
        let r = VendorSpecific::try_new(d, &header);
        kani::cover!(matches!(r, Ok(VendorSpecific::Virtio(_))));
        kani::cover!(matches!(r, Ok(VendorSpecific::Unspecified(_))));
        kani::cover!(r.is_err());
        assert!(spec::decode(d, vendor, device, &r));
    });
}
pub mod ht {
    use crate::contracts::cap::ht as spec;
    use crate::util::*;
    use pcics::capabilities::hypertransport::*;
    reg! {
        slave_command: SlaveOrPrimaryCommand, u16, spec::slave_or_primary_command;
        host_command: HostOrSecondaryCommand, u16, spec::host_or_secondary_command;
        link_control: LinkControl, u16, spec::link_control;
        link_configuration: LinkConfiguration, u16, spec::link_configuration;
        link_width: LinkWidth, u8, spec::link_width;
        revision_id: RevisionId, u8, spec::revision_id;
        link_frequency_capability: LinkFrequencyCapability, u16, spec::link_frequency_capability;
        feature_capability: FeatureCapability, u16, spec::feature_capability;
        error_handling: ErrorHandling, u16, spec::error_handling;
    }
    dec! { decode: Hypertransport, spec::decode; }
    proof!(frequency, {
        let (ext, x): (bool, u8) = (kani::any(), kani::any());
        kani::assume(x <= 15);
        assert!(LinkFrequency::new(ext, x) == spec::link_frequency(ext, x));
        let d: [u8; 26] = kani::any();
        let s = spec::slave(&d);
        assert!(s.link_freq_0(ext) == spec::link_frequency(ext, s.link_freq_0));
        assert!(s.link_freq_1(ext) == spec::link_frequency(ext, s.link_freq_1));
        let s = spec::host(&d);
        assert!(s.link_freq(ext) == spec::link_frequency(ext, s.link_freq));
    });
    proof!(msi_base_address, {
        let m = MsiMapping { enabled: kani::any(), fixed: kani::any(), base_address_lower: kani::any(), base_address_upper: kani::any() };
        assert!(m.base_address() == (m.base_address_upper as u64) << 32 | (m.base_address_lower & 0xfff0_0000) as u64);
    });
    proof!(encode, {
        let x: u8 = kani::any();
        assert!(u8::from(&RevisionId::from(x)) == x);
        let d: [u8; 26] = kani::any();
        let k = spec::kind(&d);
        let want = match k { 0..=3 => 0, 4..=7 => 4, _ => k };
        assert!(u8::from(&spec::value(&d)) == want);
    });
}
pub mod pcie {
    use crate::contracts::cap::pcie as spec;
    use crate::util::*;
    use pcics::capabilities::pci_express::*;
    reg! {
        device_capabilities: DeviceCapabilities, u32, spec::device_capabilities;
        device_control: DeviceControl, u16, spec::device_control;
        device_status: DeviceStatus, u16, spec::device_status;
        link_capabilities: LinkCapabilities, u32, spec::link_capabilities;
        link_control: LinkControl, u16, spec::link_control;
        link_status: LinkStatus, u16, spec::link_status;
        slot_capabilities: SlotCapabilities, u32, spec::slot_capabilities;
        slot_control: SlotControl, u16, spec::slot_control;
        slot_status: SlotStatus, u16, spec::slot_status;
        root_control: RootControl, u16, spec::root_control;
        root_capabilities: RootCapabilities, u16, spec::root_capabilities;
        root_status: RootStatus, u32, spec::root_status;
        device_capabilities2: DeviceCapabilities2, u32, spec::device_capabilities2;
        device_control2: DeviceControl2, u16, spec::device_control2;
        link_capabilities2: LinkCapabilities2, u32, spec::link_capabilities2;
        link_control2: LinkControl2, u16, spec::link_control2;
        link_status2: LinkStatus2, u16, spec::link_status2;
        link_speed: LinkSpeed, u8, spec::link_speed;
        link_width: LinkWidth, u8, spec::link_width;
        completion_timeout_ranges: CompletionTimeoutRanges, u8, spec::completion_timeout_ranges;
        completion_timeout_value: CompletionTimeoutValue, u8, spec::completion_timeout_value;
        downstream_component_presence: DownstreamComponentPresence, u8, spec::downstream_component_presence;
        transmitter_preset: TransmitterPreset, u8, spec::transmitter_preset;
        extended_tag: ExtendedTagFieldSupported, bool, spec::extended_tag_field_supported;
        read_completion_boundary: ReadCompletionBoundary, bool, spec::read_completion_boundary;
        end_end_tlp_prefix_blocking: EndEndTlpPrefixBlocking, bool, spec::end_end_tlp_prefix_blocking;
        de_emphasis: DeEmphasis, bool, spec::de_emphasis;
    }
    regn! {
        max_size: MaxSize, u8, 7, spec::max_size;
        phantom_functions: PhantomFunctionsSupported, u8, 3, spec::phantom_functions_supported;
        l0s_acceptable: EndpointL0sAcceptableLatency, u8, 7, spec::endpoint_l0s_acceptable_latency;
        l1_acceptable: EndpointL1AcceptableLatency, u8, 7, spec::endpoint_l1_acceptable_latency;
        aspm: ActiveStatePowerManagement, u8, 3, spec::active_state_power_management;
        l0s_exit: L0sExitLatency, u8, 7, spec::l0s_exit_latency;
        l1_exit: L1ExitLatency, u8, 7, spec::l1_exit_latency;
        indicator_control: IndicatorControl, u8, 3, spec::indicator_control;
        tph_completer: TphCompleter, u8, 3, spec::tph_completer;
        ln_system_cls: LnSystemCls, u8, 3, spec::ln_system_cls;
        obff: Obff, u8, 3, spec::obff;
        max_prefixes: MaxEndEndTlpPrefixes, u8, 3, spec::max_end_end_tlp_prefixes;
        emergency_power: EmergencyPowerReduction, u8, 3, spec::emergency_power_reduction;
        obff_enable: ObffEnable, u8, 3, spec::obff_enable;
        speeds_vector: SupportedLinkSpeedsVector, u8, 127, spec::supported_link_speeds_vector;
        crosslink: CrosslinkResolution, u8, 3, spec::crosslink_resolution;
        receiver_preset_hint: ReceiverPresetHint, u8, 7, spec::receiver_preset_hint;
    }
    dec! { decode: PciExpress, spec::decode; }
    proof!(categories, {
        let d: [u8; 58] = kani::any();
        let k = spec::kind(&d);
        let t = spec::device_type(k, spec::link(&d), spec::slot(&d), spec::root(&d), spec::link_2(&d), spec::slot_2(&d)).unwrap();
        assert!(t.is_endpoint() == matches!(k, 0 | 1 | 9));
        assert!(t.is_root() == matches!(k, 4 | 10));
        assert!(t.is_downstream_port() == matches!(k, 4 | 6 | 8));
    });
    proof!(power_limit, {
        let (value, scale): (u8, u8) = (kani::any(), kani::any());
        kani::assume(scale <= 3);
        let l = SlotPowerLimit::new(value, scale);
        assert!(l == spec::slot_power_limit(value, scale));
        // watts, to half a unit of the scale
        let watts = f32::from(&l);
        let unit = [1.0f32, 0.1, 0.01, 0.001][scale as usize];
        assert!(watts >= (value as f32 - 0.01) * unit && watts <= (value as f32 + 0.01) * unit);
        assert!(f32::from(l) == watts);
    });
    proof!(timeout_ranges, {
        assert!(CompletionTimeoutRanges::A == (50e-6..10e-3));
        assert!(CompletionTimeoutRanges::B == (10e-3..250e-3));
        assert!(CompletionTimeoutRanges::C == (250e-3..4.0));
        assert!(CompletionTimeoutRanges::D == (4.0..64.0));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        assert!(u8::from(LinkSpeed::from(x)) == x);
        assert!(u8::from(LinkWidth::from(x)) == x);
        assert!(u8::from(CompletionTimeoutRanges::from(x)) == x);
        assert!(u8::from(CompletionTimeoutValue::from(x)) == x);
        if x <= 3 {
            assert!(u8::from(TphCompleter::from(x)) == x);
            assert!(u8::from(LnSystemCls::from(x)) == x);
            assert!(u8::from(Obff::from(x)) == x);
            assert!(u8::from(MaxEndEndTlpPrefixes::from(x)) == x);
            assert!(u8::from(EmergencyPowerReduction::from(x)) == x);
            assert!(u8::from(ObffEnable::from(x)) == x);
        }
        let x: bool = kani::any();
        assert!(bool::from(EndEndTlpPrefixBlocking::from(x)) == x);
    });
}

//! Every decoder on every slice: when it succeeds (`ok`), and that neither it nor any accessor or
//! iterator of what it returns panics (`calls`: nothing is asserted, the obligations are those of
//! the code itself).
use crate::util::*;
use pcics::capabilities as c;
use pcics::extended_capabilities as e;
use pcics::header::*;

pub mod ok {
    use super::*;
    use crate::contracts::cap as cs;
    use crate::contracts::ecap as es;
    macro_rules! ok {
        ($($name:ident: $t:ty, $ok:expr;)*) => {$(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(8))]
            pub fn $name() {
                let d = any_slice();
                let r = <$t>::try_from(d);
                let spec: fn(&[u8]) -> bool = $ok;
                assert!(r.is_ok() == spec(d));
                core::mem::forget(r);
            }
        )*};
    }
    ok! {
        pm: c::power_management_interface::PowerManagementInterface, cs::pm::ok;
        agp: c::accelerated_graphics_port::AcceleratedGraphicsPort, cs::agp::ok;
        vpd: c::vital_product_data::VitalProductData, cs::small::vpd::ok;
        slot_id: c::slot_identification::SlotIdentification, cs::small::slot_id::ok;
        msi: c::message_signaled_interrups::MessageSignaledInterrups, cs::msi::ok;
        pci_x: c::pci_x::PciX, cs::pci_x::ok;
        pci_x_bridge: c::pci_x::PciXBridge, cs::pci_x::bridge_ok;
        ht: c::hypertransport::Hypertransport, cs::ht::ok;
        virtio: c::vendor_specific::Virtio, |d| d.len() >= 13;
        debug_port: c::debug_port::DebugPort, cs::small::debug_port::ok;
        bsvid: c::bridge_subsystem_vendor_id::BridgeSubsystemVendorId, cs::small::bsvid::ok;
        pcie: c::pci_express::PciExpress, cs::pcie::ok;
        msi_x: c::msi_x::MsiX, cs::msi_x::ok;
        sata: c::sata::Sata, cs::small::sata::ok;
        af: c::advanced_features::AdvancedFeatures, cs::small::af::ok;
        fpb: c::flattening_portal_bridge::FlatteningPortalBridge, cs::fpb::ok;
        aer: e::advanced_error_reporting::AdvancedErrorReporting, es::aer::ok;
        vc: e::virtual_channel::VirtualChannel, es::vc::ok;
        dsn: e::device_serial_number::DeviceSerialNumber, |d| d.len() >= 8;
        power_budget: e::power_budgeting::PowerBudgeting, es::power_budget::ok;
        rc_link: e::root_complex_link_declaration::RootComplexLinkDeclaration, es::rc_link::ok;
        rc_internal_link: e::root_complex_internal_link_control::RootComplexInternalLinkControl, |d| d.len() >= 8;
        rcec: e::root_complex_event_collector_endpoint_association::RootComplexEventCollectorEndpointAssociation, |d| d.len() >= 4;
        mfvc: e::multifunction_virtual_channel::MultifunctionVirtualChannel, es::mfvc::ok;
        rcrb: e::root_complex_register_block_header::RootComplexRegisterBlockHeader, |d| d.len() >= 20;
        vsec: e::vendor_specific_extended_capability::VendorSpecificExtendedCapability, es::vsec::ok;
        cac: e::configuration_access_correlation::ConfigurationAccessCorrelation, |d| d.len() >= 8;
        acs: e::access_control_services::AccessControlServices, es::acs::ok;
        ari: e::alternative_routing_id_interpolation::AlternativeRoutingIdInterpretation, es::ari::ok;
        ats: e::address_translation_services::AddressTranslationServices, es::ats::ok;
        sriov: e::single_root_io_virtualization::SingleRootIoVirtualization, es::sriov::ok;
        multicast: e::multicast::Multicast, |d| d.len() >= 40;
        pri: e::page_request_interface::PageRequestInterface, es::pri::ok;
        rebar: e::resizable_bar::ResizableBar, es::rebar::ok;
        dpa: e::dynamic_power_allocation::DynamicPowerAllocation, es::dpa::ok;
        tph: e::tph_requester::TphRequester, es::tph::ok;
        ltr: e::latency_tolerance_reporting::LatencyToleranceReporting, es::ltr::ok;
        spcie: e::secondary_pci_express::SecondaryPciExpress, es::spcie::ok;
        pmux: e::protocol_multiplexing::ProtocolMultiplexing, es::pmux::ok;
        pasid: e::process_address_space_id::ProcessAddressSpaceId, es::pasid::ok;
        lnr: e::ln_requester::LnRequester, |d| d.len() >= 8;
        dpc: e::downstream_port_containment::DownstreamPortContainment, es::dpc::ok;
        l1pm: e::l1_pm_substates::L1PmSubstates, es::l1pm::ok;
        ptm: e::precision_time_measurement::PrecisionTimeMeasurement, es::ptm::ok;
        mphy: e::pci_express_over_m_phy::PciExpressOverMphy, |d| d.len() >= 28;
        frs: e::frs_queuing::FrsQueuing, |d| d.len() >= 16;
        rtr: e::readiness_time_reporting::ReadinessTimeReporting, es::rtr::ok;
        dvsec: e::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapability, es::dvsec::ok;
    }
    proof!(header, {
        let d = any_slice();
        let r = Header::try_from(d);
        assert!(r.is_ok() == (d.len() >= 64));
        core::mem::forget(r);
    });
    proof!(ea, unwind 8, {
        let d = any_slice();
        let header = any_header();
        let r = c::enhanced_allocation::EnhancedAllocation::try_new(d, &header);
        assert!(r.is_ok() == cs::ea::ok(d, matches!(header.header_type, HeaderType::Bridge(_))));
        core::mem::forget(r);
    });
    proof!(vendor, unwind 8, {
        let d = any_slice();
        let header = any_header();
        let r = c::vendor_specific::VendorSpecific::try_new(d, &header);
        assert!(r.is_ok() == cs::vendor::ok(d, header.vendor_id, header.device_id));
        core::mem::forget(r);
    });
    proof!(cxl, unwind 8, {
        let d = any_slice();
        let id: u16 = kani::any();
        let r = e::designated_vendor_specific_extended_capability::ComputeExpressLink::try_new(d, id);
        assert!(r.is_ok() == (id != 0 || d.len() >= 46));
        core::mem::forget(r);
    });
}
/// Any kind of header, any ids.
fn any_header() -> Header {
    let mut bytes = [0u8; 64];
    let kind: u8 = kani::any();
    let mut h = match kind & 3 {
        0 => Header::from(bytes),
        1 => { bytes[14] = 1; Header::from(bytes) }
        2 => { bytes[14] = 2; Header::from(bytes) }
        _ => { bytes[14] = 3; Header::from(bytes) }
    };
    h.vendor_id = kani::any();
    h.device_id = kani::any();
    h
}
/// The first items of an iteration.
fn some<I: Iterator>(mut it: I) {
    let mut i = 0;
    while i < if cfg!(kani) { 3 } else { 400 } {
        core::mem::forget(it.next());
        i += 1;
    }
}
pub mod calls {
    use super::*;
    macro_rules! calls {
        ($($name:ident: $t:ty $(, $v:ident => $body:block)?;)*) => {$(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(8))]
            #[allow(unused_mut, unused_variables)]
            pub fn $name() {
                let d = any_slice();
                if let Ok(mut x) = <$t>::try_from(d) {
                    $(let $v = &mut x; $body;)?
                    core::mem::forget(x);
                }
            }
        )*};
    }
    // One more call of `next`, in any state an iterator of a decoded value can be in: with the
    // first items below, any number of items.
    #[cfg(pcics_states)]
    pub mod next {
        use super::*;
        macro_rules! next {
            ($($name:ident($d:ident) $it:block)*) => {$(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind(8))]
                pub fn $name() {
                    let $d = any_slice();
                    kani::assume($d.len() <= 1 << 32);
                    let mut it = $it;
                    core::mem::forget(it.next());
                }
            )*};
        }
        fn table_state() -> (usize, usize) {
            let (p, shift): (u8, usize) = (kani::any(), kani::any());
            kani::assume(p <= 3 && shift < 8);
            let bits = 1 << p;
            kani::assume(shift & (bits - 1) == 0);
            (bits, shift)
        }
        next! {
            ea(d) { c::enhanced_allocation::EnhancedAllocationEntries::new(d, kani::any()) }
            acs(d) {
                let at: u32 = kani::any();
                kani::assume(at < 32);
                e::access_control_services::EgressControlVectors::at(d, kani::any(), 1 << at, kani::any())
            }
            spcie(d) { e::secondary_pci_express::EqualizationControlLanes::new(d) }
            pmux(d) { e::protocol_multiplexing::PmuxProtocolArray::new(d) }
            rc_link(d) { e::root_complex_link_declaration::LinkEntries::new(d, kani::any()) }
            vc(d) {
                let (count, offset): (u8, usize) = (kani::any(), kani::any());
                kani::assume(count <= 8 && offset <= 12 * 16);
                e::virtual_channel::ExtendedVirtualChannels::at(d, count, offset)
            }
            vc2(d) {
                let (held, vc_id): (bool, u8) = (kani::any(), kani::any());
                e::virtual_channel::VcArbitrationTable::at(d, if held { Some(e::virtual_channel::VcArbitrationTableEntry { vc_id }) } else { None })
            }
            vc3(d) {
                let (bits, shift) = table_state();
                e::virtual_channel::PortArbitrationTable::at(d, bits, shift, kani::any())
            }
            mfvc(d) {
                let (bits, _) = table_state();
                let (count, offset): (u8, usize) = (kani::any(), kani::any());
                kani::assume(count <= 8 && offset <= 12 * 16);
                e::multifunction_virtual_channel::ExtendedVirtualChannels::at(d, count, bits, offset)
            }
            mfvc2(d) {
                let (bits, shift) = table_state();
                e::multifunction_virtual_channel::FunctionArbitrationTable::at(d, bits, shift, kani::any())
            }
        }
    }
    calls! {
        pm: c::power_management_interface::PowerManagementInterface, x => { core::mem::forget(x.data()) };
        agp: c::accelerated_graphics_port::AcceleratedGraphicsPort;
        vpd: c::vital_product_data::VitalProductData;
        slot_id: c::slot_identification::SlotIdentification;
        msi: c::message_signaled_interrups::MessageSignaledInterrups, x => {
            x.message_control.multiple_message_capable.number_of_vectors();
            x.message_control.multiple_message_enable.number_of_vectors();
        };
        pci_x: c::pci_x::PciX, x => {
            x.command.maximum_memory_read_byte_count.value();
            x.command.maximum_outstanding_split_transactions.value();
            x.status.designed_maximum_memory_read_byte_count.value();
            x.status.designed_maximum_outstanding_split_transactions.value();
            x.status.designed_maximum_cumulative_read_size.adqs();
            x.status.designed_maximum_cumulative_read_size.bytes();
        };
        pci_x_bridge: c::pci_x::PciXBridge;
        ht: c::hypertransport::Hypertransport, x => {
            let ext: bool = kani::any();
            match x {
                c::hypertransport::Hypertransport::SlaveOrPrimaryInterface(s) => {
                    let _ = s.link_freq_0(ext);
                    let _ = s.link_freq_1(ext);
                }
                c::hypertransport::Hypertransport::HostOrSecondaryInterface(h) => { let _ = h.link_freq(ext); }
                c::hypertransport::Hypertransport::MsiMapping(m) => { m.base_address(); }
                _ => {}
            }
        };
        debug_port: c::debug_port::DebugPort;
        bsvid: c::bridge_subsystem_vendor_id::BridgeSubsystemVendorId;
        pcie: c::pci_express::PciExpress, x => {
            let _ = x.device_type.is_endpoint();
            let _ = x.device_type.is_root();
            let _ = x.device_type.is_downstream_port();
        };
        msi_x: c::msi_x::MsiX;
        sata: c::sata::Sata, x => { x.bar_offset.value(); };
        af: c::advanced_features::AdvancedFeatures;
        fpb: c::flattening_portal_bridge::FlatteningPortalBridge;
        aer: e::advanced_error_reporting::AdvancedErrorReporting;
        vc: e::virtual_channel::VirtualChannel, x => {
            some(x.vc_arbitration_table());
            let mut it = x.extended_virtual_channels();
            if let Some(Ok(v)) = it.next() {
                some(x.port_arbitration_table(&v));
            }
            some(it);
        };
        dsn: e::device_serial_number::DeviceSerialNumber;
        power_budget: e::power_budgeting::PowerBudgeting, x => { x.data.data_scale.multiplier(); };
        rc_link: e::root_complex_link_declaration::RootComplexLinkDeclaration, x => { some(&mut x.link_entries) };
        rc_internal_link: e::root_complex_internal_link_control::RootComplexInternalLinkControl;
        rcec: e::root_complex_event_collector_endpoint_association::RootComplexEventCollectorEndpointAssociation;
        mfvc: e::multifunction_virtual_channel::MultifunctionVirtualChannel, x => {
            if let Some(t) = &mut x.vc_arbitration_table { some(t) }
            if let Some(v) = x.extended_virtual_channels.next() {
                if let Some(t) = v.function_arbitration_table { some(t) }
            }
            some(&mut x.extended_virtual_channels);
        };
        rcrb: e::root_complex_register_block_header::RootComplexRegisterBlockHeader;
        vsec: e::vendor_specific_extended_capability::VendorSpecificExtendedCapability;
        cac: e::configuration_access_correlation::ConfigurationAccessCorrelation;
        acs: e::access_control_services::AccessControlServices, x => { some(x.egress_control_vectors()) };
        ari: e::alternative_routing_id_interpolation::AlternativeRoutingIdInterpretation;
        ats: e::address_translation_services::AddressTranslationServices;
        sriov: e::single_root_io_virtualization::SingleRootIoVirtualization;
        multicast: e::multicast::Multicast;
        pri: e::page_request_interface::PageRequestInterface;
        rebar: e::resizable_bar::ResizableBar, x => {
            let mut i = 0;
            while i < 7 {
                if let Some(b) = x.next() {
                    b.is_function_supports_power_of_two(kani::any());
                }
                i += 1;
            }
        };
        dpa: e::dynamic_power_allocation::DynamicPowerAllocation;
        tph: e::tph_requester::TphRequester;
        ltr: e::latency_tolerance_reporting::LatencyToleranceReporting, x => {
            x.max_snoop_latency.value();
            x.max_no_snoop_latency.value();
        };
        spcie: e::secondary_pci_express::SecondaryPciExpress, x => {
            let w: u8 = kani::any();
            kani::assume(w <= 63);
            some(x.equalization_control_lanes(c::pci_express::LinkWidth::from(w)));
        };
        pmux: e::protocol_multiplexing::ProtocolMultiplexing, x => { some(&mut x.pmux_protocol_array) };
        pasid: e::process_address_space_id::ProcessAddressSpaceId;
        lnr: e::ln_requester::LnRequester;
        dpc: e::downstream_port_containment::DownstreamPortContainment, x => {
            x.dpc_status.dpc_trigger_reason.value();
            x.dpc_status.dpc_trigger_reason.extension_value();
        };
        l1pm: e::l1_pm_substates::L1PmSubstates, x => {
            x.l1_pm_substates_capabilities.port_t_power_on.value();
            x.l1_pm_substates_control_2.t_power_on.value();
        };
        ptm: e::precision_time_measurement::PrecisionTimeMeasurement;
        mphy: e::pci_express_over_m_phy::PciExpressOverMphy;
        frs: e::frs_queuing::FrsQueuing;
        rtr: e::readiness_time_reporting::ReadinessTimeReporting, x => {
            x.reset_time.actual_time_value();
            x.dl_up_time.actual_time_value();
            x.flr_time.actual_time_value();
            x.d3hot_to_d0_time.actual_time_value();
        };
        dvsec: e::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapability;
    }
    proof!(header, unwind 10, {
        let d: [u8; 64] = kani::any();
        let h = Header::from(d);
        let _ = h.header_type.expansion_rom();
        match h.header_type.clone() {
            HeaderType::Normal(n) => some(n.base_addresses),
            HeaderType::Bridge(n) => some(n.base_addresses),
            HeaderType::Cardbus(mut n) => {
                some(n.base_addresses.clone());
                let _ = n.try_set_optional_registers(any_slice());
            }
            _ => {}
        }
        core::mem::forget(h);
    });
    proof!(meaning, {
        let x: [u8; 3] = kani::any();
        let _ = ClassCode::from(x).meaning();
    });
    proof!(ea, unwind 8, {
        let d = any_slice();
        let header = any_header();
        if let Ok(x) = c::enhanced_allocation::EnhancedAllocation::try_new(d, &header) {
            some(x.entries);
        }
    });
    proof!(vendor, unwind 8, {
        let d = any_slice();
        let header = any_header();
        core::mem::forget(c::vendor_specific::VendorSpecific::try_new(d, &header));
    });
}

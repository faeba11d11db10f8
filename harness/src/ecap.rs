pub mod acs {
    use crate::contracts::ecap::acs as spec;
    use crate::contracts::b;
    use crate::util::*;
    use pcics::extended_capabilities::access_control_services::*;
    reg! {
        capability: AcsCapability, u16, spec::acs_capability;
        control: AcsControl, u16, spec::acs_control;
    }
    dec! { decode: AccessControlServices, spec::decode; }
    // The vector of a complete capability: as many bits as its size says, in order. For all vector
    // contents, and for the sizes listed (bounded: the other sizes are not unrolled).
    fn vector(size: u8, e: bool, n: usize) {
        let a: [u8; 36] = kani::any();
        let mut v = AccessControlServices::try_from(&a[..]).unwrap();
        v.acs_capability.egress_control_vector_size = size;
        v.acs_capability.acs_p2p_egress_control = e;
        let mut it = v.egress_control_vectors();
        let mut i = 0;
        while i < n {
            assert!(it.next() == Some(b(a[4 + i / 8], i as u32 % 8)));
            i += 1;
        }
        assert!(it.next().is_none());
        assert!(it.next().is_none());
    }
    bounded!(egress_control_vector, unwind 260, { vector(0, true, 256); });
    bounded!(egress_control_vector_255, unwind 260, { vector(255, true, 255); });
    bounded!(egress_control_vector_sizes, unwind 260, {
        vector(0, false, 0);
        vector(1, true, 1);
        vector(31, true, 31);
        vector(32, true, 32);
        vector(33, true, 33);
        vector(97, true, 97);
    });
    // The vector is there completely or not at all.
    bounded!(egress_control_vector_short, {
        let d = any_slice();
        if let Ok(v) = AccessControlServices::try_from(d) {
            let n = spec::vector_bits(crate::contracts::w(d, 0));
            let there = n > 0 && d.len() - 4 >= (n + 31) / 32 * 4;
            kani::cover!(there);
            let first = v.egress_control_vectors().next();
            assert!(first == if there { Some(b(d[4], 0)) } else { None });
        }
    });
}
pub mod ats {
    use crate::contracts::ecap::ats as spec;
    use crate::util::*;
    use pcics::extended_capabilities::address_translation_services::*;
    reg! {
        capability: AtsCapability, u16, spec::ats_capability;
        control: AtsControl, u16, spec::ats_control;
    }
    dec! { decode: AddressTranslationServices, spec::decode; }
}
pub mod ari {
    use crate::contracts::ecap::ari as spec;
    use crate::util::*;
    use pcics::extended_capabilities::alternative_routing_id_interpolation::*;
    reg! {
        capability: AriCapability, u16, spec::ari_capability;
        control: AriControl, u16, spec::ari_control;
    }
    dec! { decode: AlternativeRoutingIdInterpretation, spec::decode; }
}
pub mod pri {
    use crate::contracts::ecap::pri as spec;
    use crate::util::*;
    use pcics::extended_capabilities::page_request_interface::*;
    dec! { decode: PageRequestInterface, spec::decode; }
}
pub mod pasid {
    use crate::contracts::ecap::pasid as spec;
    use crate::util::*;
    use pcics::extended_capabilities::process_address_space_id::*;
    reg! {
        capability: PacidCapability, u16, spec::pacid_capability;
        control: PacidControl, u16, spec::pacid_control;
    }
    dec! { decode: ProcessAddressSpaceId, spec::decode; }
}
pub mod sriov {
    use crate::contracts::ecap::sriov as spec;
    use crate::util::*;
    use pcics::extended_capabilities::single_root_io_virtualization::*;
    reg! {
        capabilities: SriovCapabilities, u32, spec::sriov_capabilities;
        control: SriovControl, u16, spec::sriov_control;
        status: SriovStatus, u16, spec::sriov_status;
    }
    dec! { decode: SingleRootIoVirtualization, spec::decode; }
}
pub mod l1pm {
    use crate::contracts::ecap::l1pm as spec;
    use crate::util::*;
    use pcics::extended_capabilities::l1_pm_substates::*;
    regn! { t_power_on_scale: PortTPowerOnScale, u8, 3, spec::port_tpower_on_scale; }
    dec! { decode: L1PmSubstates, spec::decode; }
    proof!(t_power_on, {
        let x: u8 = kani::any();
        assert!(spec::t_power_on(x).value() == spec::t_power_on_us(x));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        kani::assume(x <= 3);
        assert!(u8::from(PortTPowerOnScale::from(x)) == x);
        let x: u8 = kani::any();
        assert!(u8::from(spec::t_power_on(x)) == x & 0xfb);
        let x: u32 = kani::any();
        assert!(u32::from(spec::capabilities(x)) == x & 0x00fb_ff1f);
        assert!(u32::from(spec::control_1(x)) == x & 0xe3ff_ff0f);
        assert!(u32::from(spec::control_2(x)) == x & 0xfb);
    });
}
pub mod ltr {
    use crate::contracts::ecap::ltr as spec;
    use crate::util::*;
    use pcics::extended_capabilities::latency_tolerance_reporting::*;
    reg! { max_latency: MaxLatency, u16, spec::max_latency; }
    dec! { decode: LatencyToleranceReporting, spec::decode; }
    proof!(nanoseconds, {
        let x: u16 = kani::any();
        assert!(MaxLatency::from(x).value() == spec::latency_ns(x));
    });
    proof!(encode, {
        let x: u16 = kani::any();
        assert!(u16::from(MaxLatency::from(x)) == x & 0x1fff);
    });
}
pub mod ptm {
    use crate::contracts::ecap::ptm as spec;
    use crate::util::*;
    use pcics::extended_capabilities::precision_time_measurement::*;
    reg! {
        capability: PtmCapability, u32, spec::ptm_capability;
        control: PtmControl, u32, spec::ptm_control;
    }
    dec! { decode: PrecisionTimeMeasurement, spec::decode; }
}
pub mod power_budget {
    use crate::contracts::ecap::power_budget as spec;
    use crate::util::*;
    use pcics::extended_capabilities::power_budgeting::*;
    reg! {
        base_power: BasePower, u8, spec::base_power;
        pm_sub_state: PmSubState, u8, spec::pm_sub_state;
        operation_condition_type: OperationConditionType, u8, spec::operation_condition_type;
        power_rail: PowerRail, u8, spec::power_rail;
    }
    regn! {
        data_scale: DataScale, u8, 3, spec::data_scale;
        pm_state: PmState, u8, 3, spec::pm_state;
    }
    dec! { decode: PowerBudgeting, spec::decode; }
    proof!(multiplier, {
        let x: u8 = kani::any();
        kani::assume(x <= 3);
        assert!(DataScale::from(x).multiplier() == [1.0, 0.1, 0.01, 0.001][x as usize]);
    });
}
pub mod dpa {
    use crate::contracts::ecap::dpa as spec;
    use crate::util::*;
    use pcics::extended_capabilities::dynamic_power_allocation::*;
    reg! {
        capability: DpaCapability, u32, spec::dpa_capability;
        status: DpaStatus, u16, spec::dpa_status;
        control: DpaControl, u16, spec::dpa_control;
    }
    regn! {
        transition_latency_unit: TransitionLatencyUnit, u8, 3, spec::transition_latency_unit;
        power_allocation_scale: PowerAllocationScale, u8, 3, spec::power_allocation_scale;
    }
    dec! { decode: DynamicPowerAllocation, spec::decode; }
}
pub mod rtr {
    use crate::contracts::ecap::rtr as spec;
    use crate::contracts::{f, f8};
    use crate::util::*;
    use pcics::extended_capabilities::readiness_time_reporting::*;
    reg! { readiness_time: ReadinessTime, u16, spec::readiness_time; }
    dec! { decode: ReadinessTimeReporting, spec::decode; }
    proof!(actual_time_value, {
        let x: u16 = kani::any();
        let scale = [1u64, 1 << 5, 1 << 10, 1 << 15, 1 << 20, 1 << 25, 1 << 30, 1 << 35][f8(x, 11, 9) as usize];
        assert!(ReadinessTime::from(x).actual_time_value() == f(x, 8, 0) * scale);
    });
}
pub mod aer {
    use crate::contracts::ecap::aer as spec;
    use crate::util::*;
    use pcics::extended_capabilities::advanced_error_reporting::*;
    reg! {
        uncorrectable_error: UncorrectableError, u32, spec::uncorrectable_error;
        correctable_error: CorrectableError, u32, spec::correctable_error;
        capabilities_and_control: AdvancedErrorCapabilitiesAndControl, u32, spec::advanced_error_capabilities_and_control;
        root_error_command: RootErrorCommand, u32, spec::root_error_command;
        root_error_status: RootErrorStatus, u32, spec::root_error_status;
    }
    dec! { decode: AdvancedErrorReporting, spec::decode; }
}
pub mod vc {
    use crate::contracts::ecap::vc as spec;
    use crate::contracts::f8;
    use crate::util::*;
    use pcics::extended_capabilities::virtual_channel::*;
    reg! {
        port_vc_capability1: PortVcCapability1, u32, spec::port_vc_capability1;
        port_vc_capability2: PortVcCapability2, u32, spec::port_vc_capability2;
        port_vc_control: PortVcControl, u16, spec::port_vc_control;
        port_vc_status: PortVcStatus, u16, spec::port_vc_status;
        vc_resource_capability: VcResourceCapability, u32, spec::vc_resource_capability;
        vc_resource_control: VcResourceControl, u32, spec::vc_resource_control;
        vc_resource_status: VcResourceStatus, u16, spec::vc_resource_status;
        reference_clock: ReferenceClock, u8, spec::reference_clock;
        port_arbitration_select: PortArbitrationSelect, u8, spec::port_arbitration_select;
        vc_arbitration_select: VcArbitrationSelect, u8, spec::vc_arbitration_select;
    }
    dec! { decode: VirtualChannel, spec::decode; }
    proof!(lengths, {
        let x: u8 = kani::any();
        kani::assume(x <= 3);
        assert!(PortArbitrationTableEntrySize::from(x).bits() == spec::entry_bits(x));
        let x: u8 = kani::any();
        kani::assume(x <= 7);
        assert!(VcArbitrationSelect::from(x).vc_arbitration_table_length() == spec::vc_table_entries(x));
        assert!(PortArbitrationSelect::from(x).port_arbitration_table_length() == spec::port_table_entries(x));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        assert!(u8::from(PortArbitrationSelect::from(x)) == x);
    });
    // VC resource 0 and then Extended VC Count more, each complete; it ends where the data end.
    bounded!(channels, unwind 10, {
        let d = any_slice();
        if let Ok(v) = VirtualChannel::try_from(d) {
            let n = f8(d[0], 2, 0) as usize + 1;
            let mut it = v.extended_virtual_channels();
            let mut i = 0;
            while i < 8 {
                match it.next() {
                    Some(Ok(c)) => assert!(i < n && d.len() >= 24 + 12 * i && c == spec::channel(d, 12 + 12 * i)),
                    Some(Err(_)) => assert!(false),
                    None => assert!(i >= n || d.len() < 24 + 12 * i),
                }
                i += 1;
            }
            assert!(it.next().is_none());
        }
    });
    // The entries of the tables: low bits of a byte first, all entries of a byte.
    bounded!(vc_table, unwind 5, {
        let a: [u8; 2] = kani::any();
        let mut it = VcArbitrationTable::new(&a[..]);
        let mut i = 0;
        while i < 4 {
            let e = it.next();
            assert!(e == Some(VcArbitrationTableEntry { vc_id: a[i / 2] >> (i % 2 * 4) & 7 }));
            i += 1;
        }
        assert!(it.next().is_none());
        assert!(it.next().is_none());
    });
    // The content of an entry is private; one entry of value v is named by an 8-bit table [v].
    pub(crate) fn entry(v: u8) -> Option<PortArbitrationTableEntry> { PortArbitrationTable::new(&[v], 8).next() }
    proof!(port_table_entry, {
        let (x, y): (u8, u8) = (kani::any(), kani::any());
        assert!(entry(x).is_some() && (entry(x) == entry(y)) == (x == y));
    });
    fn port_table_of(bits: usize, a: &[u8]) {
        let mut it = PortArbitrationTable::new(a, bits);
        let mut i = 0;
        while i < a.len() * 8 / bits {
            let o = i * bits;
            assert!(it.next() == entry((a[o / 8] >> (o % 8)) & (0xffu8 >> (8 - bits))));
            i += 1;
        }
        assert!(it.next().is_none());
        assert!(it.next().is_none());
    }
    bounded!(port_table_entries, unwind 18, {
        let a: [u8; 2] = kani::any();
        port_table_of(1, &a);
        port_table_of(2, &a);
        port_table_of(4, &a);
        port_table_of(8, &a);
    });
    // The VC arbitration table of a capability: the bytes at its offset, as many as the arbitration
    // scheme says, or nothing where there is no table or it is not complete.
    bounded!(vc_table_start, {
        let d = any_slice();
        if let Ok(v) = VirtualChannel::try_from(d) {
            let entries = spec::vc_table_entries(f8(d[8], 3, 1));
            let o = d[7] as usize * 16;
            let there = entries > 0 && o > 0 && d.len() >= o - 4 + entries / 2;
            kani::cover!(there);
            match v.vc_arbitration_table().next() {
                Some(e) => assert!(there && e.vc_id == d[o - 4] & 7),
                None => assert!(!there),
            }
        }
    });
    // All of it, for a capability of 60 bytes with the table at byte 28.
    fn table(select: VcArbitrationSelect, entries: usize) {
        let a: [u8; 60] = kani::any();
        let mut v = VirtualChannel::try_from(&a[..]).unwrap();
        v.port_vc_control.vc_arbitration_select = select;
        v.port_vc_capability_2.vc_arbitration_table_offset = 2;
        let mut it = v.vc_arbitration_table();
        let mut i = 0;
        while i < entries {
            assert!(it.next() == Some(VcArbitrationTableEntry { vc_id: a[28 + i / 2] >> (i % 2 * 4) & 7 }));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(vc_table_32, unwind 34, { table(VcArbitrationSelect::Wrr32phases, 32); });
    bounded!(vc_table_64, unwind 66, { table(VcArbitrationSelect::Wrr64phases, 64); });
    // The port arbitration table of a VC resource, likewise.
    bounded!(port_table_start, {
        let d = any_slice();
        if let Ok(v) = VirtualChannel::try_from(d) {
            let x: [u8; 12] = kani::any();
            let c = spec::channel(&x, 0);
            let bits = spec::entry_bits(f8(d[1], 3, 2));
            let entries = spec::port_table_entries(f8(x[6], 3, 1));
            let o = x[3] as usize * 16;
            let there = entries > 0 && o > 0 && d.len() >= o - 4 + entries * bits / 8;
            kani::cover!(there);
            match v.port_arbitration_table(&c).next() {
                Some(e) => assert!(there && Some(e) == entry(d[o - 4] & (0xffu8 >> (8 - bits)))),
                None => assert!(!there),
            }
        }
    });
    fn port_table(select: u8, size: u8, entries: usize, bits: usize) {
        let a: [u8; 60] = kani::any();
        let mut v = VirtualChannel::try_from(&a[..]).unwrap();
        v.port_vc_capability_1.port_arbitration_table_entry_size = size.into();
        let mut c = spec::channel(&[0; 12], 0);
        c.vc_resource_capability.port_arbitration_table_offset = 2;
        c.vc_resource_control.port_arbitration_select = spec::port_arbitration_select(select);
        let mut it = v.port_arbitration_table(&c);
        let mut i = 0;
        while i < entries {
            let k = i * bits;
            assert!(it.next() == entry((a[28 + k / 8] >> (k % 8)) & (0xffu8 >> (8 - bits))));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(port_table_32_1, unwind 34, { port_table(1, 0, 32, 1); });
    bounded!(port_table_32_8, unwind 34, { port_table(1, 3, 32, 8); });
    bounded!(port_table_64, unwind 66, { port_table(2, 1, 64, 2); });
}
pub mod mfvc {
    use crate::contracts::ecap::mfvc as spec;
    use crate::contracts::ecap::vc as vc;
    use crate::contracts::f8;
    use crate::util::*;
    use pcics::extended_capabilities::multifunction_virtual_channel::*;
    use pcics::extended_capabilities::virtual_channel::VcArbitrationTableEntry;
    reg! {
        port_vc_capability1: PortVcCapability1, u32, spec::port_vc_capability1;
        vc_resource_capability: VcResourceCapability, u32, spec::vc_resource_capability;
        vc_resource_control: VcResourceControl, u32, spec::vc_resource_control;
        vc_resource_status: VcResourceStatus, u16, spec::vc_resource_status;
        function_arbitration_select: FunctionArbitrationSelect, u8, spec::function_arbitration_select;
    }
    dec! { decode: MultifunctionVirtualChannel, spec::decode; }
    proof!(lengths, {
        let x: u8 = kani::any();
        kani::assume(x <= 3);
        assert!(FunctionArbitrationTableEntrySize::from(x).bits() == vc::entry_bits(x));
        let x: u8 = kani::any();
        kani::assume(x <= 7);
        assert!(FunctionArbitrationSelect::from(x).function_arbitration_table_length() == vc::port_table_entries(x));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        assert!(u8::from(FunctionArbitrationSelect::from(x)) == x);
        let x: u32 = kani::any();
        assert!(u8::from(spec::vc_resource_capability(x).function_arbitration_capability) == x as u8);
        assert!(u32::from(spec::vc_resource_capability(x)) == x & 0xff7f_00ff);
        assert!(u32::from(spec::vc_resource_control(x)) == x & 0x870f_00ff);
        assert!(u16::from(spec::vc_resource_status(x as u16)) == x as u16 & 3);
        let a: [u8; 12] = kani::any();
        let e: [u8; 12] = ExtendedVirtualChannel::from(a).into();
        assert!(e[0] == a[0] && e[1] == 0 && e[2] == a[2] & 0x7f && e[3] == a[3]);
        assert!(e[4] == a[4] && e[5] == 0 && e[6] == a[6] & 0x0f && e[7] == a[7] & 0x87);
        assert!(e[8] == 0 && e[9] == 0 && e[10] == a[10] & 3 && e[11] == 0);
    });
    bounded!(channels, unwind 10, {
        let d = any_slice();
        if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
            let n = f8(d[4], 2, 0) as usize + 1;
            let mut it = v.extended_virtual_channels;
            let mut i = 0;
            while i < 8 {
                match it.next() {
                    Some(c) => {
                        assert!(i < n && d.len() >= 28 + 12 * i);
                        let s = spec::channel(d, 16 + 12 * i);
                        assert!(c.vc_resource_capability == s.vc_resource_capability);
                        assert!(c.vc_resource_control == s.vc_resource_control);
                        assert!(c.vc_resource_status == s.vc_resource_status);
                    }
                    None => assert!(i >= n || d.len() < 28 + 12 * i),
                }
                i += 1;
            }
            assert!(it.next().is_none());
        }
    });
    // The function arbitration table of a VC resource: the bytes at its offset, or none.
    bounded!(function_table_start, {
        let d = any_slice();
        if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
            if let Some(c) = v.extended_virtual_channels.clone().next() {
                let o = d[19] as usize * 16;
                let bits = vc::entry_bits(f8(d[5], 3, 2));
                let n = vc::port_table_entries(f8(d[22], 3, 1)) * bits / 8;
                let there = o >= 32 && d.len() >= o + n;
                kani::cover!(there && n > 0);
                match c.function_arbitration_table {
                    Some(mut t) => {
                        assert!(there);
                        assert!(t.next() == if n > 0 { entry(d[o] & (0xffu8 >> (8 - bits))) } else { None });
                    }
                    None => assert!(!there),
                }
            }
        }
    });
    pub(crate) fn entry(v: u8) -> Option<FunctionArbitrationTableEntry> { FunctionArbitrationTable::new(&[v], 8).next() }
    proof!(function_table_entry, {
        let (x, y): (u8, u8) = (kani::any(), kani::any());
        assert!(entry(x).is_some() && (entry(x) == entry(y)) == (x == y));
    });
    fn function_table_of(bits: usize, a: &[u8]) {
        let mut it = FunctionArbitrationTable::new(a, bits);
        let mut i = 0;
        while i < a.len() * 8 / bits {
            let o = i * bits;
            assert!(it.next() == entry((a[o / 8] >> (o % 8)) & (0xffu8 >> (8 - bits))));
            i += 1;
        }
        assert!(it.next().is_none());
        assert!(it.next().is_none());
    }
    bounded!(function_table_entries, unwind 18, {
        let a: [u8; 2] = kani::any();
        function_table_of(1, &a);
        function_table_of(2, &a);
        function_table_of(4, &a);
        function_table_of(8, &a);
    });
    // The function arbitration table of VC resource 0 of a capability of 64 bytes: 32 entries of
    // one bit, 64 of two bits at byte 32, for all contents.
    fn function_table(select: u8, size: u8, entries: usize, bits: usize) {
        let mut a: [u8; 64] = kani::any();
        a[5] = size << 2;
        a[11] = 0;
        a[19] = 2;
        a[22] = select << 1;
        let v = MultifunctionVirtualChannel::try_from(&a[..]).unwrap();
        let mut it = v.extended_virtual_channels.clone().next().unwrap().function_arbitration_table.unwrap();
        let mut i = 0;
        while i < entries {
            let k = i * bits;
            assert!(it.next() == entry((a[32 + k / 8] >> (k % 8)) & (0xffu8 >> (8 - bits))));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(function_table_32, unwind 34, { function_table(1, 0, 32, 1); });
    bounded!(function_table_64, unwind 66, { function_table(2, 1, 64, 2); });
    bounded!(vc_table_start, {
        let d = any_slice();
        if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
            let o = d[11] as usize * 16;
            let n = vc::vc_table_entries(f8(d[12], 3, 1));
            if let Some(mut t) = v.vc_arbitration_table {
                match t.next() {
                    Some(e) => assert!(n > 0 && e.vc_id == d[o] & 7),
                    None => assert!(n == 0),
                }
            }
        }
    });
    // The VC arbitration table of a capability of 64 bytes, at byte 32.
    fn table(select: u8, entries: usize) {
        let mut a: [u8; 64] = kani::any();
        a[11] = 2;
        a[12] = select << 1;
        let v = MultifunctionVirtualChannel::try_from(&a[..]).unwrap();
        let mut it = v.vc_arbitration_table.unwrap();
        let mut i = 0;
        while i < entries {
            assert!(it.next() == Some(VcArbitrationTableEntry { vc_id: a[32 + i / 2] >> (i % 2 * 4) & 7 }));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(vc_table_32, unwind 34, { table(1, 32); });
    bounded!(vc_table_64, unwind 66, { table(2, 64); });
}
pub mod vsec {
    use crate::contracts::ecap::vsec as spec;
    use crate::util::*;
    use pcics::extended_capabilities::vendor_specific_extended_capability::*;
    dec! { decode: VendorSpecificExtendedCapability, spec::decode; }
}
pub mod dvsec {
    use crate::contracts::ecap::dvsec as spec;
    use crate::util::*;
    use pcics::extended_capabilities::designated_vendor_specific_extended_capability::*;
    dec! { decode: DesignatedVendorSpecificExtendedCapability, spec::decode; }
    proof!(cxl, {
        let d = any_slice();
        let id: u16 = kani::any();
        let r = ComputeExpressLink::try_new(d, id);
        kani::cover!(r.is_ok());
        match &r {
            Ok(v) => assert!((id != 0 || d.len() >= 46) && spec::cxl(d, id, v)),
            Err(_) => assert!(id == 0 && d.len() < 46),
        }
    });
}
pub mod cxl {
    use crate::contracts::ecap::cxl as spec;
    use crate::util::*;
    use pcics::extended_capabilities::designated_vendor_specific_extended_capability::compute_express_link::pcie_dvsec_for_cxl_device::*;
    reg! {
        cxl_capability: CxlCapability, u16, spec::cxl_capability;
        cxl_control: CxlControl, u16, spec::cxl_control;
        cxl_status: CxlStatus, u16, spec::cxl_status;
        cxl_control2: CxlControl2, u16, spec::cxl_control2;
        cxl_status2: CxlStatus2, u16, spec::cxl_status2;
        cxl_lock: CxlLock, u16, spec::cxl_lock;
        cxl_capability2: CxlCapability2, u16, spec::cxl_capability2;
        cxl_reset_timeout: CxlResetTimeout, u8, spec::cxl_reset_timeout;
        cache_size_unit: CacheSizeUnit, u8, spec::cache_size_unit;
        media_type: MediaType, u8, spec::media_type;
        memory_class: MemoryClass, u8, spec::memory_class;
        desired_interleave: DesiredInterleave, u8, spec::desired_interleave;
        memory_active_timeout: MemoryActiveTimeout, u8, spec::memory_active_timeout;
        cache_clean_eviction: CacheCleanEviction, bool, spec::cache_clean_eviction;
    }
    regn! {
        hdm_count: HdmCount, u8, 3, spec::hdm_count;
        cache_sf_coverage: CacheSfCoverage, u8, 31, spec::cache_sf_coverage;
        cache_sf_granularity: CacheSfGranularity, u8, 7, spec::cache_sf_granularity;
    }
    proof!(range, {
        let (low, high): (u32, u32) = (kani::any(), kani::any());
        assert!(CxlRangeSize::new(low, high) == spec::range_size(low, high));
        assert!(spec::range_base(low, high, &CxlRangeBase::new(low, high)));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        kani::assume(x <= 31);
        assert!(u8::from(CacheSfCoverage::from(x)) == x);
    });
}
pub mod rc_link {
    use crate::contracts::ecap::rc_link as spec;
    use crate::util::*;
    use pcics::extended_capabilities::root_complex_link_declaration::*;
    reg! {
        element_self_description: ElementSelfDescription, u32, spec::element_self_description;
        element_type: ElementType, u8, spec::element_type;
        link_description: LinkDescription, u32, spec::link_description;
    }
    dec! { decode: RootComplexLinkDeclaration, spec::decode; }
    proof!(link_address, {
        let (low, high): (u32, u32) = (kani::any(), kani::any());
        assert!(LinkAddress::new(0, low, high) == spec::link_address(low, high, true));
        assert!(LinkAddress::new(1, low, high) == spec::link_address(low, high, false));
    });
    proof!(encode, {
        let x: u8 = kani::any();
        assert!(u8::from(ElementType::from(x)) == x);
        let (low, high, t): (u32, u32, u8) = (kani::any(), kani::any(), kani::any());
        kani::assume(t <= 1);
        let r: [u32; 2] = LinkAddress::new(t, low, high).into();
        assert!(r[0] == low && r[1] == high);
    });
    // The first three entries of any declaration.
    bounded!(entries, unwind 5, {
        let d = any_slice();
        if let Ok(v) = RootComplexLinkDeclaration::try_from(d) {
            let mut it = v.link_entries;
            let mut i = 0;
            while i < 3 {
                match it.next() {
                    Some(e) => assert!(i < d[1] as usize && d.len() >= 28 + 16 * i && e == spec::link_entry(d, 12 + 16 * i)),
                    None => assert!(i >= d[1] as usize || d.len() < 28 + 16 * i),
                }
                i += 1;
            }
        }
    });
    // No more than announced, whatever follows.
    fn count(n: u8) {
        let d = any_slice();
        let l = LinkEntries::new(d, n);
        assert!(l.state == spec::state(d.len(), n as usize));
        let mut it = l.clone();
        let mut i = 0;
        while i < n as usize && d.len() >= 16 * (i + 1) {
            assert!(it.next() == Some(spec::link_entry(d, 16 * i)));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(count_0, unwind 3, { count(0); });
    bounded!(count_1, unwind 3, { count(1); });
    bounded!(count_3, unwind 5, { count(3); });
}
pub mod rc_internal_link {
    use crate::contracts::ecap::rc_internal_link as spec;
    use crate::util::*;
    use pcics::extended_capabilities::root_complex_internal_link_control::*;
    reg! {
        capabilities: RootComplexLinkCapabilities, u32, spec::root_complex_link_capabilities;
        control: RootComplexLinkControl, u16, spec::root_complex_link_control;
        status: RootComplexLinkStatus, u16, spec::root_complex_link_status;
    }
    dec! { decode: RootComplexInternalLinkControl, spec::decode; }
}
pub mod rcec {
    use crate::contracts::ecap::rcec as spec;
    use crate::util::*;
    use pcics::extended_capabilities::root_complex_event_collector_endpoint_association::*;
    dec! { decode: RootComplexEventCollectorEndpointAssociation, spec::decode; }
}
pub mod rcrb {
    use crate::contracts::ecap::rcrb as spec;
    use crate::util::*;
    use pcics::extended_capabilities::root_complex_register_block_header::*;
    reg! {
        capabilities: RcrbCapabilities, u32, spec::rcrb_capabilities;
        control: RcrbControl, u32, spec::rcrb_control;
    }
    dec! { decode: RootComplexRegisterBlockHeader, spec::decode; }
}
pub mod dpc {
    use crate::contracts::ecap::dpc as spec;
    use crate::util::*;
    use pcics::extended_capabilities::downstream_port_containment::*;
    reg! {
        capability: DpcCapability, u16, spec::dpc_capability;
        control: DpcControl, u16, spec::dpc_control;
        status: DpcStatus, u16, spec::dpc_status;
        rp_pio: RpPio, u32, spec::rp_pio;
    }
    regn! { trigger: DpcTrigger, u8, 3, spec::dpc_trigger; }
    // The prefix log has at most 4 dwords: Kani proves that 6 turns of any loop suffice.
    proof!(decode, unwind 6, {
        let d = any_slice();
        let r = DownstreamPortContainment::try_from(d);
        kani::cover!(r.is_ok());
        kani::cover!(r.is_err());
        assert!(spec::decode(d, &r));
    });
    proof!(encode, {
        let (x, e): (u8, u8) = (kani::any(), kani::any());
        kani::assume(x <= 3 && e <= 3);
        let r = DpcTriggerReason::new(x, e);
        assert!(r == spec::dpc_trigger_reason(x, e));
        assert!(r.value() == x && r.extension_value() == if x == 3 { e } else { 0 });
    });
}
pub mod frs {
    use crate::contracts::ecap::frs as spec;
    use crate::util::*;
    use pcics::extended_capabilities::frs_queuing::*;
    reg! {
        capability: FrsQueuingCapability, u32, spec::frs_queuing_capability;
        status: FrsQueuingStatus, u16, spec::frs_queuing_status;
        control: FrsQueuingControl, u16, spec::frs_queuing_control;
        message_queue: FrsMessageQueue, u32, spec::frs_message_queue;
    }
    dec! { decode: FrsQueuing, spec::decode; }
}
pub mod lnr {
    use crate::contracts::ecap::lnr as spec;
    use crate::util::*;
    use pcics::extended_capabilities::ln_requester::*;
    reg! {
        capability: LnrCapability, u16, spec::lnr_capability;
        control: LnrControl, u16, spec::lnr_control;
    }
    dec! { decode: LnRequester, spec::decode; }
}
pub mod tph {
    use crate::contracts::ecap::tph as spec;
    use crate::util::*;
    use pcics::extended_capabilities::tph_requester::*;
    reg! {
        control: TphRequesterControl, u32, spec::tph_requester_control;
        st_mode_select: StModeSelect, u8, spec::st_mode_select;
    }
    regn! { requester_enable: TphRequesterEnable, u8, 3, spec::tph_requester_enable; }
    dec! { decode: TphRequester, spec::decode; }
}
pub mod spcie {
    use crate::contracts::ecap::spcie as spec;
    #[cfg(not(kani))]
    use crate::contracts::cap::pcie::{receiver_preset_hint, transmitter_preset};
    use crate::contracts::w;
    use crate::util::*;
    use pcics::capabilities::pci_express::LinkWidth;
    use pcics::extended_capabilities::secondary_pci_express::*;
    reg! { link_control3: LinkControl3, u32, spec::link_control3; }
    dec! { decode: SecondaryPciExpress, spec::decode; }
    // The fields of a lane are private: its contract names them; without the contract, what can be
    // seen is that every bit of them counts, and their Debug form (natively).
    #[cfg_attr(all(kani, pcics_contracts), kani::proof_for_contract(<LaneEqualizationControl as core::convert::From<u16>>::from))]
    #[cfg_attr(all(kani, not(pcics_contracts)), kani::proof)]
    pub fn lane() {
        let x: u16 = kani::any();
        let l = <LaneEqualizationControl as core::convert::From<u16>>::from(x);
        #[cfg(not(kani))]
        assert!(std::format!("{:?}", l) == std::format!(
            "LaneEqualizationControl {{ downstream_port_transmitter_preset: {:?}, downstream_port_receiver_preset_hint: {:?}, upstream_port_transmitter_preset: {:?}, upstream_port_receiver_preset_hint: {:?} }}",
            transmitter_preset((x & 15) as u8), receiver_preset_hint((x >> 4 & 7) as u8),
            transmitter_preset((x >> 8 & 15) as u8), receiver_preset_hint((x >> 12 & 7) as u8)));
        let _ = l;
    }
    proof!(lane_bits, {
        let (x, y): (u16, u16) = (kani::any(), kani::any());
        assert!((LaneEqualizationControl::from(x) == LaneEqualizationControl::from(y)) == (x & 0x7f7f == y & 0x7f7f));
    });
    // As many lanes as the link is wide, as far as they are there: the first three of any.
    bounded!(lanes, unwind 5, {
        let d = any_slice();
        if let Ok(v) = SecondaryPciExpress::try_from(d) {
            let x: u8 = kani::any();
            kani::assume(x <= 63);
            let mut it = v.equalization_control_lanes(LinkWidth::from(x));
            let mut i = 0;
            while i < 3 {
                match it.next() {
                    Some(l) => {
                        assert!(i < x as usize && d.len() >= 10 + 2 * i);
                        assert!(l == LaneEqualizationControl::from(w(d, 8 + 2 * i)));
                    }
                    None => assert!(i >= x as usize || d.len() < 10 + 2 * i),
                }
                i += 1;
            }
        }
    });
    // All lanes of a given width.
    fn all(width: LinkWidth, n: usize) {
        let a: [u8; 48] = kani::any();
        let v = SecondaryPciExpress::try_from(&a[..]).unwrap();
        let mut it = v.equalization_control_lanes(width);
        let mut i = 0;
        while i < n {
            assert!(it.next() == Some(LaneEqualizationControl::from(w(&a, 8 + 2 * i))));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(lanes_1_2_4, unwind 6, {
        all(LinkWidth::X1, 1);
        all(LinkWidth::X2, 2);
        all(LinkWidth::X4, 4);
    });
    bounded!(lanes_16, unwind 18, { all(LinkWidth::X16, 16); });
}
pub mod multicast {
    use crate::contracts::ecap::multicast as spec;
    use crate::util::*;
    use pcics::extended_capabilities::multicast::*;
    reg! {
        capability: MulticastCapability, u16, spec::multicast_capability;
        control: MulticastControl, u16, spec::multicast_control;
        base_address: McBaseAddress, u64, spec::mc_base_address;
        overlay_bar: McOverlayBar, u64, spec::mc_overlay_bar;
    }
    dec! { decode: Multicast, spec::decode; }
}
pub mod pmux {
    use crate::contracts::ecap::pmux as spec;
    use crate::contracts::f8;
    use crate::util::*;
    use pcics::extended_capabilities::protocol_multiplexing::*;
    reg! {
        capability: PmuxCapability, u32, spec::pmux_capability;
        link_speeds: PmuxSupportedLinkSpeeds, u8, spec::pmux_supported_link_speeds;
        control: PmuxControl, u32, spec::pmux_control;
        status: PmuxStatus, u32, spec::pmux_status;
    }
    dec! { decode: ProtocolMultiplexing, spec::decode; }
    // The first three entries of any array.
    bounded!(entries, unwind 5, {
        let d = any_slice();
        if let Ok(v) = ProtocolMultiplexing::try_from(d) {
            let n = f8(d[4], 5, 0) as usize;
            let mut it = v.pmux_protocol_array;
            let mut i = 0;
            while i < 3 {
                let e = it.next();
                assert!(e == if i < n { Some(spec::entry(d, 16 + 4 * i)) } else { None });
                i += 1;
            }
        }
    });
    // All entries of an array of a given length.
    fn all(n: u8) {
        let mut a: [u8; 64] = kani::any();
        a[4] = n;
        let v = ProtocolMultiplexing::try_from(&a[..]).unwrap();
        let mut it = v.pmux_protocol_array;
        let mut i = 0;
        while i < n as usize {
            assert!(it.next() == Some(spec::entry(&a, 16 + 4 * i)));
            i += 1;
        }
        assert!(it.next().is_none());
    }
    bounded!(entries_1, unwind 3, { all(1); });
    bounded!(entries_12, unwind 14, { all(12); });
    proof!(encode, {
        let a: [u8; 4] = kani::any();
        let e: [u8; 4] = spec::entry(&a, 0).into();
        assert!(e[0] == a[0] && e[1] == a[1] && e[2] == a[2] && e[3] == a[3]);
    });
}
pub mod mphy {
    use crate::contracts::ecap::mphy as spec;
    use crate::util::*;
    use pcics::extended_capabilities::pci_express_over_m_phy::*;
    reg! {
        capabilities: MpcieCapabilities, u32, spec::mpcie_capabilities;
        control: MpcieControl, u32, spec::mpcie_control;
        status: MpcieStatus, u32, spec::mpcie_status;
        phy_control_address: MpciePhyControlAddress, u32, spec::mpcie_phy_control_address;
        phy_control_data: MpciePhyControlData, u32, spec::mpcie_phy_control_data;
        link_speed: MpcieLinkSpeed, u8, spec::mpcie_link_speed;
        lane_width_supported: LaneWidthSupported, u8, spec::lane_width_supported;
        lane_width_status: LaneWidthStatus, u8, spec::lane_width_status;
        phy_location: PhyLocation, u8, spec::phy_location;
    }
    dec! { decode: PciExpressOverMphy, spec::decode; }
}
pub mod rebar {
    use crate::contracts::ecap::rebar as spec;
    use crate::util::*;
    use pcics::extended_capabilities::resizable_bar::*;
    reg! {
        capability: ResizableBarCapability, u32, spec::resizable_bar_capability;
        control: ResizableBarControl, u32, spec::resizable_bar_control;
    }
    dec! { decode: ResizableBar, spec::decode; }
    proof!(entries, unwind 8, {
        let d = any_slice();
        if let Ok(mut it) = ResizableBar::try_from(d) {
            let n = spec::bars(d);
            let mut i = 0;
            while i < 6 {
                let e = it.next();
                assert!(e == if i < n { Some(spec::entry(d, 4 + 8 * i)) } else { None });
                i += 1;
            }
            assert!(it.next().is_none());
        }
    });
    proof!(sizes, {
        let (c, k, p): (u32, u32, usize) = (kani::any(), kani::any(), kani::any());
        let e = ResizableBarEntry { capability: c.into(), control: k.into() };
        assert!(e.is_function_supports_power_of_two(p) == spec::supports(c, k, p));
    });
}
pub mod cac {
    use crate::contracts::ecap::cac as spec;
    use crate::util::*;
    use pcics::extended_capabilities::configuration_access_correlation::*;
    dec! { decode: ConfigurationAccessCorrelation, spec::decode; }
}
pub mod dsn {
    use crate::contracts::ecap::dsn as spec;
    use crate::util::*;
    use pcics::extended_capabilities::device_serial_number::*;
    dec! { decode: DeviceSerialNumber, spec::decode; }
}

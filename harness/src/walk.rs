//! The capability list walks. This text is compiled twice:
//!   * in the walk crate, for proofs: over the iterators of /repo (their source files, byte for
//!     byte) and stand-in decoders, which succeed or fail as the harness chooses and record (ghost
//!     state, token.rs) which of them was called with which bytes and header;
//!   * in the harness crate, natively: over the real crate and its real decoders (replay).
use crate::util::*;
use crate::api::header::{Command, Header, HeaderType, Status};

/// Whatever the decoders do: all fail, or all succeed.
#[cfg(kani)]
fn decoders() { crate::token::start(kani::any()) }
#[cfg(not(kani))]
fn decoders() { let _: bool = kani::any(); }
#[cfg(kani)]
use crate::token::{any_call, succeeds, was};

/// Any header: every kind of header, every value of the registers a walk could look at.
fn any_header() -> Header {
    let mut bytes = [0u8; 64];
    let kind: u8 = kani::any();
    let mut h = match kind & 3 {
        0 => Header::from(bytes),
        1 => { bytes[14] = 1; Header::from(bytes) }
        2 => { bytes[14] = 2; Header::from(bytes) }
        _ => { bytes[14] = 3; Header::from(bytes) }
    };
    h.vendor_id = kani::any();
    h.device_id = kani::any();
    h.command = Command::from(kani::any::<u16>());
    h.status = Status::from(kani::any::<u16>());
    h.revision_id = kani::any();
    h.capabilities_pointer = kani::any();
    h.is_multi_function = kani::any();
    h.interrupt_line = kani::any();
    h
}

pub mod cap {
    use super::*;
    use crate::api::capabilities::*;
    use CapabilityError as E;
    use CapabilityKind as Kind;

    /// What the list holds at `p`.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum At { End, BelowRegion, NoHeader, Entry { offset: usize, id: u8, next: u8 } }
    fn at(d: &[u8], p: u8) -> At {
        if p == 0 { return At::End }
        if p < 0x40 { return At::BelowRegion }
        let offset = p as usize - 0x40;
        if d.len() < offset + 2 { return At::NoHeader }
        At::Entry { offset, id: d[offset], next: d[offset + 1] }
    }
    /// Where the walk goes from `p`.
    fn after(d: &[u8], p: u8) -> u8 {
        match at(d, p) { At::Entry { next, .. } => next, _ => 0 }
    }
    type Item<'a> = Option<Result<Capability<'a>, E>>;

    /// The item reported for `p`.
    #[cfg(not(kani))]
    fn expected<'a>(d: &'a [u8], h: &'a Header, p: u8) -> Item<'a> {
        let ptr = p;
        let (offset, id) = match at(d, p) {
            At::End => return None,
            At::BelowRegion => return Some(Err(E::Pointer)),
            At::NoHeader => return Some(Err(E::Header { ptr })),
            At::Entry { offset, id, .. } => (offset, id),
        };
        let b = &d[offset + 2..];
        let kind = match id {
            0x00 => Ok(Kind::NullCapability),
            0x06 => Ok(Kind::CompactPciHotSwap(CompactPciHotSwap)),
            0x0b => Ok(Kind::CompactPciResourceControl(CompactPciResourceControl)),
            0x0c => Ok(Kind::PciHotPlug(PciHotPlug)),
            0x0e => Ok(Kind::Agp8x(Agp8x)),
            0x0f => Ok(Kind::SecureDevice(SecureDevice)),
            0x01 => PowerManagementInterface::try_from(b).map(Kind::PowerManagementInterface).map_err(|source| E::Data { ptr, source }),
            0x02 => AcceleratedGraphicsPort::try_from(b).map(Kind::AcceleratedGraphicsPort).map_err(|source| E::Data { ptr, source }),
            0x03 => VitalProductData::try_from(b).map(Kind::VitalProductData).map_err(|source| E::Data { ptr, source }),
            0x04 => SlotIdentification::try_from(b).map(Kind::SlotIdentification).map_err(|source| E::Data { ptr, source }),
            0x05 => MessageSignaledInterrups::try_from(b).map(Kind::MessageSignaledInterrups).map_err(|source| E::MessageSignaledInterrups { ptr, source }),
            0x07 if !matches!(h.header_type, HeaderType::Bridge(_)) => PciX::try_from(b).map(Kind::PciX).map_err(|source| E::PciX { ptr, source }),
            0x07 if matches!(h.header_type, HeaderType::Bridge(_)) => PciXBridge::try_from(b).map(Kind::PciXBridge).map_err(|source| E::PciXBridge { ptr, source }),
            0x08 => Hypertransport::try_from(b).map(Kind::Hypertransport).map_err(|source| E::Hypertransport { ptr, source }),
            0x09 => VendorSpecific::try_new(b, h).map(Kind::VendorSpecific).map_err(|source| E::VendorSpecific { ptr, source }),
            0x0a => DebugPort::try_from(b).map(Kind::DebugPort).map_err(|source| E::Data { ptr, source }),
            0x0d => BridgeSubsystemVendorId::try_from(b).map(Kind::BridgeSubsystemVendorId).map_err(|source| E::Data { ptr, source }),
            0x10 => PciExpress::try_from(b).map(Kind::PciExpress).map_err(|source| E::PciExpress { ptr, source }),
            0x11 => MsiX::try_from(b).map(Kind::MsiX).map_err(|source| E::Data { ptr, source }),
            0x12 => Sata::try_from(b).map(Kind::Sata).map_err(|source| E::Data { ptr, source }),
            0x13 => AdvancedFeatures::try_from(b).map(Kind::AdvancedFeatures).map_err(|source| E::Data { ptr, source }),
            0x14 => EnhancedAllocation::try_new(b, h).map(Kind::EnhancedAllocation).map_err(|source| E::EnhancedAllocation { ptr, source }),
            0x15 => FlatteningPortalBridge::try_from(b).map(Kind::FlatteningPortalBridge).map_err(|source| E::Data { ptr, source }),
            v => Ok(Kind::Reserved(v)),
        };
        Some(kind.map(|kind| Capability { pointer: ptr, kind }))
    }

    /// Kani: what was called, and what became of it.
    #[cfg(kani)]
    fn check(d: &[u8], h: &Header, p: u8, r: Item) {
        match at(d, p) {
            At::End => assert!(r.is_none() && !any_call()),
            At::BelowRegion => assert!(matches!(r, Some(Err(E::Pointer)))),
            At::NoHeader => assert!(matches!(r, Some(Err(E::Header { ptr })) if ptr == p)),
            At::Entry { offset, id, .. } => {
                let b = &d[offset + 2..];
                let (n, h) = (core::ptr::null(), h as *const Header);
                let bridge = matches!(unsafe { &*h }.header_type, HeaderType::Bridge(_));
                match r {
                    Some(Ok(c)) => {
                        assert!(c.pointer == p, "an entry with another pointer");
                        assert!(match c.kind {
                            Kind::NullCapability => id == 0x00 && !any_call(),
                            Kind::CompactPciHotSwap(_) => id == 0x06 && !any_call(),
                            Kind::CompactPciResourceControl(_) => id == 0x0b && !any_call(),
                            Kind::PciHotPlug(_) => id == 0x0c && !any_call(),
                            Kind::Agp8x(_) => id == 0x0e && !any_call(),
                            Kind::SecureDevice(_) => id == 0x0f && !any_call(),
                            Kind::PowerManagementInterface(_) => id == 0x01 && was::<PowerManagementInterface>(b, n),
                            Kind::AcceleratedGraphicsPort(_) => id == 0x02 && was::<AcceleratedGraphicsPort>(b, n),
                            Kind::VitalProductData(_) => id == 0x03 && was::<VitalProductData>(b, n),
                            Kind::SlotIdentification(_) => id == 0x04 && was::<SlotIdentification>(b, n),
                            Kind::MessageSignaledInterrups(_) => id == 0x05 && was::<MessageSignaledInterrups>(b, n),
                            Kind::PciX(_) => id == 0x07 && !bridge && was::<PciX>(b, n),
                            Kind::PciXBridge(_) => id == 0x07 && bridge && was::<PciXBridge>(b, n),
                            Kind::Hypertransport(_) => id == 0x08 && was::<Hypertransport>(b, n),
                            Kind::VendorSpecific(_) => id == 0x09 && was::<VendorSpecific>(b, h),
                            Kind::DebugPort(_) => id == 0x0a && was::<DebugPort>(b, n),
                            Kind::BridgeSubsystemVendorId(_) => id == 0x0d && was::<BridgeSubsystemVendorId>(b, n),
                            Kind::PciExpress(_) => id == 0x10 && was::<PciExpress>(b, n),
                            Kind::MsiX(_) => id == 0x11 && was::<MsiX>(b, n),
                            Kind::Sata(_) => id == 0x12 && was::<Sata>(b, n),
                            Kind::AdvancedFeatures(_) => id == 0x13 && was::<AdvancedFeatures>(b, n),
                            Kind::EnhancedAllocation(_) => id == 0x14 && was::<EnhancedAllocation>(b, h),
                            Kind::FlatteningPortalBridge(_) => id == 0x15 && was::<FlatteningPortalBridge>(b, n),
                            Kind::Reserved(v) => v == id && id > 0x15 && !any_call(),
                        }, "an entry of another kind, or decoded from other bytes");
                    }
                    Some(Err(e)) => assert!(!succeeds() && match e {
                        E::Data { ptr, .. } => ptr == p && match id {
                            0x01 => was::<PowerManagementInterface>(b, n),
                            0x02 => was::<AcceleratedGraphicsPort>(b, n),
                            0x03 => was::<VitalProductData>(b, n),
                            0x04 => was::<SlotIdentification>(b, n),
                            0x0a => was::<DebugPort>(b, n),
                            0x0d => was::<BridgeSubsystemVendorId>(b, n),
                            0x11 => was::<MsiX>(b, n),
                            0x12 => was::<Sata>(b, n),
                            0x13 => was::<AdvancedFeatures>(b, n),
                            0x15 => was::<FlatteningPortalBridge>(b, n),
                            _ => false,
                        },
                        E::MessageSignaledInterrups { ptr, .. } => ptr == p && id == 0x05 && was::<MessageSignaledInterrups>(b, n),
                        E::PciX { ptr, .. } => ptr == p && id == 0x07 && !bridge && was::<PciX>(b, n),
                        E::PciXBridge { ptr, .. } => ptr == p && id == 0x07 && bridge && was::<PciXBridge>(b, n),
                        E::Hypertransport { ptr, .. } => ptr == p && id == 0x08 && was::<Hypertransport>(b, n),
                        E::VendorSpecific { ptr, .. } => ptr == p && id == 0x09 && was::<VendorSpecific>(b, h),
                        E::PciExpress { ptr, .. } => ptr == p && id == 0x10 && was::<PciExpress>(b, n),
                        E::EnhancedAllocation { ptr, .. } => ptr == p && id == 0x14 && was::<EnhancedAllocation>(b, h),
                        _ => false,
                    }, "another error"),
                    None => panic!("the walk ends early"),
                }
            }
        }
    }
    #[cfg(not(kani))]
    fn check(d: &[u8], h: &Header, p: u8, r: Item) { assert!(r == expected(d, h, p)) }
    // The first two entries of any list over any region.
    proof!(entries, unwind 9, {
        let d = any_slice();
        let h = any_header();
        decoders();
        let mut it = Capabilities::new(d, &h);
        let mut p = h.capabilities_pointer;
        kani::cover!(p != 0 && after(d, p) != 0 && after(d, after(d, p)) > 0x40);
        let mut i = 0;
        while i < 2 {
            decoders();
            check(d, &h, p, it.next());
            p = after(d, p);
            i += 1;
        }
    });
    // Any step of any walk, with any number of steps left (hook: iterator states).
    #[cfg(pcics_states)]
    proof!(step, unwind 9, {
        let d = any_slice();
        let h = any_header();
        decoders();
        let (p, left): (u8, u8) = (kani::any(), kani::any());
        let mut it = Capabilities::at(d, &h, p, left);
        let r = it.next();
        let (q, rest) = it.state();
        if left == 0 {
            assert!(r.is_none() && rest == 0);
        } else {
            check(d, &h, p, r);
            // (a walk may also end by giving up the rest)
            let to = after(d, p);
            assert!(q == to || to == 0 && rest == 0, "the walk goes on somewhere else");
            assert!(p == 0 || rest < left, "nothing bounds the walk");
            assert!(to == 0 || rest + 1 >= left, "a long walk is cut off");
        }
    });
    // Where a walk starts; it is long enough for every pointer there is.
    #[cfg(pcics_states)]
    proof!(start, unwind 9, {
        let d = any_slice();
        let h = any_header();
        let (p, left) = Capabilities::new(d, &h).state();
        assert!(p == h.capabilities_pointer && left >= 192);
    });
    // The longest list: every byte of the region starts an entry. It is walked to its end.
    #[cfg(not(kani))]
    proof!(longest, unwind 200, {
        let mut d = [0u8; 192];
        let mut i = 0;
        while i < 190 {
            d[i + 1] = 0x41 + i as u8;
            i += 1;
        }
        let mut h = Header::from([0u8; 64]);
        h.capabilities_pointer = 0x40;
        let mut it = Capabilities::new(&d, &h);
        let mut i = 0;
        while i < 191 {
            check(&d, &h, 0x40 + i, it.next());
            i += 1;
        }
        assert!(it.next().is_none());
    });
    // A list that loops: the walk ends.
    #[cfg(not(kani))]
    proof!(looped, unwind 600, {
        let d = [0u8, 0x42, 0, 0x40];
        let mut h = Header::from([0u8; 64]);
        h.capabilities_pointer = 0x40;
        let mut it = Capabilities::new(&d, &h);
        let mut i = 0;
        while i < 512 {
            if it.next().is_none() { break }
            i += 1;
        }
        assert!(i >= 2 && i < 512);
    });
    // Chains over regions of every kind: all items, to the end. (Natively.)
    #[cfg(not(kani))]
    proof!(chains, {
        let mut h = any_header();
        let mut d: Vec<u8> = any_slice().iter().cycle().take(192).copied().collect();
        d.resize(if kani::any() { 192 } else { kani::any::<u8>() as usize }, 0);
        let n = 1 + kani::any::<u8>() % 6;
        let mut p = 0x40 + (kani::any::<u8>() & 0x7c);
        h.capabilities_pointer = p;
        for i in 0..n {
            let next = match kani::any::<u8>() % 16 { 0 => kani::any(), 1 => 0xfc + kani::any::<u8>() % 4, _ => 0x40 + (kani::any::<u8>() & 0xbc) };
            let Some([id, ptr, ..]) = (p as usize).checked_sub(0x40).and_then(|o| d.get_mut(o..)) else { break };
            *id = kani::any::<u8>() % 0x18;
            *ptr = if i + 1 < n { next } else { 0 };
            p = *ptr;
        }
        let mut seen = [false; 256];
        let mut it = Capabilities::new(&d, &h);
        let mut p = h.capabilities_pointer;
        while !seen[p as usize] {
            seen[p as usize] = p != 0;
            check(&d, &h, p, it.next());
            if p == 0 { break }
            p = after(&d, p);
        }
        assert!(it.take(2000).count() < 1000);
    });
}

pub mod ecap {
    use super::*;
    use crate::api::extended_capabilities::*;
    use ExtendedCapabilityError as E;
    use ExtendedCapabilityKind as Kind;
    fn dw(d: &[u8], o: usize) -> u32 { d[o] as u32 | (d[o + 1] as u32) << 8 | (d[o + 2] as u32) << 16 | (d[o + 3] as u32) << 24 }

    /// What the list holds at `o`.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum At { End, BelowSpace, NoHeader, Empty, Entry { start: usize, id: u16, version: u8, next: u16 } }
    fn at(d: &[u8], o: u16) -> At {
        if o == 0 { return At::End }
        if o < 0x100 { return At::BelowSpace }
        let start = o as usize - 0x100;
        if d.len() < start + 4 { return At::NoHeader }
        let x = dw(d, start);
        if x == 0 { return At::Empty }
        At::Entry { start, id: x as u16, version: (x >> 16 & 15) as u8, next: (x >> 20) as u16 }
    }
    /// Where the walk goes from `o`.
    fn after(d: &[u8], o: u16) -> u16 {
        match at(d, o) { At::Entry { next, .. } => next, _ => 0 }
    }
    type Item<'a> = Option<Result<ExtendedCapability<'a>, E>>;

    /// The item reported for `o`.
    #[cfg(not(kani))]
    fn check(d: &[u8], o: u16, r: Item) {
        if let (At::Entry { id, version, .. }, Some(Ok(c))) = (at(d, o), &r) {
            assert!(c.id() == id, "an entry with another id");
            // 002Dh to 0034h are defined, but have no decoder: named or reserved
            if matches!(id, 0x002d..=0x0034) {
                assert!(c.offset == o && c.version == version);
                return;
            }
        }
        assert!(r == expected(d, o));
    }
    #[cfg(not(kani))]
    fn expected(d: &[u8], o: u16) -> Item<'_> {
        let offset = o;
        let (start, id, version) = match at(d, o) {
            At::End | At::Empty => return None,
            At::BelowSpace => return Some(Err(E::Offset)),
            At::NoHeader => return Some(Err(E::Header { offset })),
            At::Entry { start, id, version, .. } => (start, id, version),
        };
        let kind = match id {
            0x0000 => Ok(Kind::Null),
            0x0011 => Ok(Kind::MultiRootIoVirtualization(MultiRootIoVirtualization)),
            0x0014 => Ok(Kind::ReservedForAmd(ReservedForAmd)),
            0x0025 => Ok(Kind::DataLinkFeature(DataLinkFeature)),
            0x0026 => Ok(Kind::PhysicalLayer16GTps(PhysicalLayer16GTps)),
            0x0027 => Ok(Kind::LaneMarginingAtTheReceiver(LaneMarginingAtTheReceiver)),
            0x0028 => Ok(Kind::HierarchyId(HierarchyId)),
            0x0029 => Ok(Kind::NativePcieEnclosureManagement(NativePcieEnclosureManagement)),
            0x002a => Ok(Kind::PhysicalLayer32GTps(PhysicalLayer32GTps)),
            0x002b => Ok(Kind::AlternateProtocol(AlternateProtocol)),
            0x002c => Ok(Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary)),
            0x0001 => AdvancedErrorReporting::try_from(&d[start + 4..]).map(Kind::AdvancedErrorReporting).map_err(|source| E::AdvancedErrorReporting { offset, source }),
            0x0002 => VirtualChannel::try_from(&d[start + 4..]).map(Kind::VirtualChannel).map_err(|source| E::Data { offset, source }),
            0x0003 => DeviceSerialNumber::try_from(&d[start + 4..]).map(Kind::DeviceSerialNumber).map_err(|source| E::Data { offset, source }),
            0x0004 => PowerBudgeting::try_from(&d[start + 4..]).map(Kind::PowerBudgeting).map_err(|source| E::Data { offset, source }),
            0x0005 => RootComplexLinkDeclaration::try_from(&d[start + 4..]).map(Kind::RootComplexLinkDeclaration).map_err(|source| E::RootComplexLinkDeclaration { offset, source }),
            0x0006 => RootComplexInternalLinkControl::try_from(&d[start + 4..]).map(Kind::RootComplexInternalLinkControl).map_err(|source| E::Data { offset, source }),
            0x0007 => RootComplexEventCollectorEndpointAssociation::try_from(&d[start + 4..]).map(Kind::RootComplexEventCollectorEndpointAssociation).map_err(|source| E::Data { offset, source }),
            0x0008 => MultifunctionVirtualChannel::try_from(&d[start..]).map(Kind::MultifunctionVirtualChannel).map_err(|source| E::MultifunctionVirtualChannel { offset, source }),
            0x0009 => VirtualChannel::try_from(&d[start + 4..]).map(Kind::VirtualChannelMfvcPresent).map_err(|source| E::Data { offset, source }),
            0x000a => RootComplexRegisterBlockHeader::try_from(&d[start..]).map(Kind::RootComplexRegisterBlockHeader).map_err(|source| E::Data { offset, source }),
            0x000b => VendorSpecificExtendedCapability::try_from(&d[start + 4..]).map(Kind::VendorSpecificExtendedCapability).map_err(|source| E::Data { offset, source }),
            0x000c => ConfigurationAccessCorrelation::try_from(&d[start..]).map(Kind::ConfigurationAccessCorrelation).map_err(|source| E::Data { offset, source }),
            0x000d => AccessControlServices::try_from(&d[start + 4..]).map(Kind::AccessControlServices).map_err(|source| E::Data { offset, source }),
            0x000e => AlternativeRoutingIdInterpretation::try_from(&d[start + 4..]).map(Kind::AlternativeRoutingIdInterpretation).map_err(|source| E::Data { offset, source }),
            0x000f => AddressTranslationServices::try_from(&d[start + 4..]).map(Kind::AddressTranslationServices).map_err(|source| E::Data { offset, source }),
            0x0010 => SingleRootIoVirtualization::try_from(&d[start + 4..]).map(Kind::SingleRootIoVirtualization).map_err(|source| E::Data { offset, source }),
            0x0012 => Multicast::try_from(&d[start..]).map(Kind::Multicast).map_err(|source| E::Data { offset, source }),
            0x0013 => PageRequestInterface::try_from(&d[start + 4..]).map(Kind::PageRequestInterface).map_err(|source| E::Data { offset, source }),
            0x0015 => ResizableBar::try_from(&d[start..]).map(Kind::ResizableBar).map_err(|source| E::ResizableBar { offset, source }),
            0x0016 => DynamicPowerAllocation::try_from(&d[start..]).map(Kind::DynamicPowerAllocation).map_err(|source| E::DynamicPowerAllocation { offset, source }),
            0x0017 => TphRequester::try_from(&d[start + 4..]).map(Kind::TphRequester).map_err(|source| E::Data { offset, source }),
            0x0018 => LatencyToleranceReporting::try_from(&d[start + 4..]).map(Kind::LatencyToleranceReporting).map_err(|source| E::Data { offset, source }),
            0x0019 => SecondaryPciExpress::try_from(&d[start + 4..]).map(Kind::SecondaryPciExpress).map_err(|source| E::Data { offset, source }),
            0x001a => ProtocolMultiplexing::try_from(&d[start..]).map(Kind::ProtocolMultiplexing).map_err(|source| E::ProtocolMultiplexing { offset, source }),
            0x001b => ProcessAddressSpaceId::try_from(&d[start + 4..]).map(Kind::ProcessAddressSpaceId).map_err(|source| E::Data { offset, source }),
            0x001c => LnRequester::try_from(&d[start..]).map(Kind::LnRequester).map_err(|source| E::Data { offset, source }),
            0x001d => DownstreamPortContainment::try_from(&d[start + 4..]).map(Kind::DownstreamPortContainment).map_err(|source| E::DownstreamPortContainment { offset, source }),
            0x001e => L1PmSubstates::try_from(&d[start + 4..]).map(Kind::L1PmSubstates).map_err(|source| E::Data { offset, source }),
            0x001f => PrecisionTimeMeasurement::try_from(&d[start + 4..]).map(Kind::PrecisionTimeMeasurement).map_err(|source| E::Data { offset, source }),
            0x0020 => PciExpressOverMphy::try_from(&d[start..]).map(Kind::PciExpressOverMphy).map_err(|source| E::Data { offset, source }),
            0x0021 => FrsQueuing::try_from(&d[start..]).map(Kind::FrsQueuing).map_err(|source| E::Data { offset, source }),
            0x0022 => ReadinessTimeReporting::try_from(&d[start..]).map(Kind::ReadinessTimeReporting).map_err(|source| E::Data { offset, source }),
            0x0023 => DesignatedVendorSpecificExtendedCapability::try_from(&d[start..]).map(Kind::DesignatedVendorSpecificExtendedCapability).map_err(|source| E::DesignatedVendorSpecificExtendedCapability { offset, source }),
            0x0024 => ResizableBar::try_from(&d[start..]).map(Kind::VfResizableBar).map_err(|source| E::VfResizableBar { offset, source }),
            v => Ok(Kind::Reserved(v)),
        };
        Some(kind.map(|kind| ExtendedCapability { kind, version, offset }))
    }

    /// Kani: what was called, and what became of it.
    #[cfg(kani)]
    fn check(d: &[u8], o: u16, r: Item) {
        match at(d, o) {
            At::End | At::Empty => assert!(r.is_none() && !any_call()),
            At::BelowSpace => assert!(matches!(r, Some(Err(E::Offset)))),
            At::NoHeader => assert!(matches!(r, Some(Err(E::Header { offset })) if offset == o)),
            At::Entry { start, id, version, .. } => {
                let (f, s) = (&d[start..], &d[start + 4..]);
                let n = core::ptr::null();
                match r {
                    Some(Ok(c)) => {
                        assert!(c.offset == o && c.version == version, "an entry with another offset or version");
                        assert!(c.id() == id, "an entry with another id");
                        assert!(match c.kind {
                            Kind::Null => id == 0x0000 && !any_call(),
                            Kind::MultiRootIoVirtualization(_) => id == 0x0011 && !any_call(),
                            Kind::ReservedForAmd(_) => id == 0x0014 && !any_call(),
                            Kind::DataLinkFeature(_) => id == 0x0025 && !any_call(),
                            Kind::PhysicalLayer16GTps(_) => id == 0x0026 && !any_call(),
                            Kind::LaneMarginingAtTheReceiver(_) => id == 0x0027 && !any_call(),
                            Kind::HierarchyId(_) => id == 0x0028 && !any_call(),
                            Kind::NativePcieEnclosureManagement(_) => id == 0x0029 && !any_call(),
                            Kind::PhysicalLayer32GTps(_) => id == 0x002a && !any_call(),
                            Kind::AlternateProtocol(_) => id == 0x002b && !any_call(),
                            Kind::SystemFirmwareIntermediary(_) => id == 0x002c && !any_call(),
                            Kind::AdvancedErrorReporting(_) => id == 0x0001 && was::<AdvancedErrorReporting>(s, n),
                            Kind::VirtualChannel(_) => id == 0x0002 && was::<VirtualChannel>(s, n),
                            Kind::DeviceSerialNumber(_) => id == 0x0003 && was::<DeviceSerialNumber>(s, n),
                            Kind::PowerBudgeting(_) => id == 0x0004 && was::<PowerBudgeting>(s, n),
                            Kind::RootComplexLinkDeclaration(_) => id == 0x0005 && was::<RootComplexLinkDeclaration>(s, n),
                            Kind::RootComplexInternalLinkControl(_) => id == 0x0006 && was::<RootComplexInternalLinkControl>(s, n),
                            Kind::RootComplexEventCollectorEndpointAssociation(_) => id == 0x0007 && was::<RootComplexEventCollectorEndpointAssociation>(s, n),
                            Kind::MultifunctionVirtualChannel(_) => id == 0x0008 && was::<MultifunctionVirtualChannel>(f, n),
                            Kind::VirtualChannelMfvcPresent(_) => id == 0x0009 && was::<VirtualChannel>(s, n),
                            Kind::RootComplexRegisterBlockHeader(_) => id == 0x000a && was::<RootComplexRegisterBlockHeader>(f, n),
                            Kind::VendorSpecificExtendedCapability(_) => id == 0x000b && was::<VendorSpecificExtendedCapability>(s, n),
                            Kind::ConfigurationAccessCorrelation(_) => id == 0x000c && was::<ConfigurationAccessCorrelation>(f, n),
                            Kind::AccessControlServices(_) => id == 0x000d && was::<AccessControlServices>(s, n),
                            Kind::AlternativeRoutingIdInterpretation(_) => id == 0x000e && was::<AlternativeRoutingIdInterpretation>(s, n),
                            Kind::AddressTranslationServices(_) => id == 0x000f && was::<AddressTranslationServices>(s, n),
                            Kind::SingleRootIoVirtualization(_) => id == 0x0010 && was::<SingleRootIoVirtualization>(s, n),
                            Kind::Multicast(_) => id == 0x0012 && was::<Multicast>(f, n),
                            Kind::PageRequestInterface(_) => id == 0x0013 && was::<PageRequestInterface>(s, n),
                            Kind::ResizableBar(_) => id == 0x0015 && was::<ResizableBar>(f, n),
                            Kind::DynamicPowerAllocation(_) => id == 0x0016 && was::<DynamicPowerAllocation>(f, n),
                            Kind::TphRequester(_) => id == 0x0017 && was::<TphRequester>(s, n),
                            Kind::LatencyToleranceReporting(_) => id == 0x0018 && was::<LatencyToleranceReporting>(s, n),
                            Kind::SecondaryPciExpress(_) => id == 0x0019 && was::<SecondaryPciExpress>(s, n),
                            Kind::ProtocolMultiplexing(_) => id == 0x001a && was::<ProtocolMultiplexing>(f, n),
                            Kind::ProcessAddressSpaceId(_) => id == 0x001b && was::<ProcessAddressSpaceId>(s, n),
                            Kind::LnRequester(_) => id == 0x001c && was::<LnRequester>(f, n),
                            Kind::DownstreamPortContainment(_) => id == 0x001d && was::<DownstreamPortContainment>(s, n),
                            Kind::L1PmSubstates(_) => id == 0x001e && was::<L1PmSubstates>(s, n),
                            Kind::PrecisionTimeMeasurement(_) => id == 0x001f && was::<PrecisionTimeMeasurement>(s, n),
                            Kind::PciExpressOverMphy(_) => id == 0x0020 && was::<PciExpressOverMphy>(f, n),
                            Kind::FrsQueuing(_) => id == 0x0021 && was::<FrsQueuing>(f, n),
                            Kind::ReadinessTimeReporting(_) => id == 0x0022 && was::<ReadinessTimeReporting>(f, n),
                            Kind::DesignatedVendorSpecificExtendedCapability(_) => id == 0x0023 && was::<DesignatedVendorSpecificExtendedCapability>(f, n),
                            Kind::VfResizableBar(_) => id == 0x0024 && was::<ResizableBar>(f, n),
                            Kind::Reserved(v) => v == id && id > 0x2c && !any_call(),
                            // 002Dh to 0034h are defined, but have no decoder: named or reserved
                            _ => matches!(id, 0x002d..=0x0034) && !any_call(),
                        }, "an entry of another kind, or decoded from other bytes");
                    }
                    Some(Err(e)) => assert!(!succeeds() && match e {
                        E::Data { offset, .. } => offset == o && match id {
                            0x0002 => was::<VirtualChannel>(s, n),
                            0x0003 => was::<DeviceSerialNumber>(s, n),
                            0x0004 => was::<PowerBudgeting>(s, n),
                            0x0006 => was::<RootComplexInternalLinkControl>(s, n),
                            0x0007 => was::<RootComplexEventCollectorEndpointAssociation>(s, n),
                            0x0009 => was::<VirtualChannel>(s, n),
                            0x000a => was::<RootComplexRegisterBlockHeader>(f, n),
                            0x000b => was::<VendorSpecificExtendedCapability>(s, n),
                            0x000c => was::<ConfigurationAccessCorrelation>(f, n),
                            0x000d => was::<AccessControlServices>(s, n),
                            0x000e => was::<AlternativeRoutingIdInterpretation>(s, n),
                            0x000f => was::<AddressTranslationServices>(s, n),
                            0x0010 => was::<SingleRootIoVirtualization>(s, n),
                            0x0012 => was::<Multicast>(f, n),
                            0x0013 => was::<PageRequestInterface>(s, n),
                            0x0017 => was::<TphRequester>(s, n),
                            0x0018 => was::<LatencyToleranceReporting>(s, n),
                            0x0019 => was::<SecondaryPciExpress>(s, n),
                            0x001b => was::<ProcessAddressSpaceId>(s, n),
                            0x001c => was::<LnRequester>(f, n),
                            0x001e => was::<L1PmSubstates>(s, n),
                            0x001f => was::<PrecisionTimeMeasurement>(s, n),
                            0x0020 => was::<PciExpressOverMphy>(f, n),
                            0x0021 => was::<FrsQueuing>(f, n),
                            0x0022 => was::<ReadinessTimeReporting>(f, n),
                            _ => false,
                        },
                        E::AdvancedErrorReporting { offset, .. } => offset == o && id == 0x0001 && was::<AdvancedErrorReporting>(s, n),
                        E::RootComplexLinkDeclaration { offset, .. } => offset == o && id == 0x0005 && was::<RootComplexLinkDeclaration>(s, n),
                        E::MultifunctionVirtualChannel { offset, .. } => offset == o && id == 0x0008 && was::<MultifunctionVirtualChannel>(f, n),
                        E::ResizableBar { offset, .. } => offset == o && id == 0x0015 && was::<ResizableBar>(f, n),
                        E::DynamicPowerAllocation { offset, .. } => offset == o && id == 0x0016 && was::<DynamicPowerAllocation>(f, n),
                        E::ProtocolMultiplexing { offset, .. } => offset == o && id == 0x001a && was::<ProtocolMultiplexing>(f, n),
                        E::DownstreamPortContainment { offset, .. } => offset == o && id == 0x001d && was::<DownstreamPortContainment>(s, n),
                        E::DesignatedVendorSpecificExtendedCapability { offset, .. } => offset == o && id == 0x0023 && was::<DesignatedVendorSpecificExtendedCapability>(f, n),
                        E::VfResizableBar { offset, .. } => offset == o && id == 0x0024 && was::<ResizableBar>(f, n),
                        _ => false,
                    }, "another error"),
                    None => panic!("the walk ends early"),
                }
            }
        }
    }
    // The first two entries of any list over any space.
    proof!(entries, unwind 9, {
        let d = any_slice();
        decoders();
        let mut it = ExtendedCapabilities::new(d);
        let mut o = 0x100;
        kani::cover!(after(d, after(d, o)) > 0x100);
        let mut i = 0;
        while i < 2 {
            decoders();
            check(d, o, it.next());
            o = after(d, o);
            i += 1;
        }
    });
    // Any step of any walk, with any number of steps left (hook: iterator states).
    #[cfg(pcics_states)]
    proof!(step, unwind 9, {
        let d = any_slice();
        decoders();
        let (o, left): (u16, u16) = (kani::any(), kani::any());
        kani::assume(o <= 0xfff);
        let mut it = ExtendedCapabilities::at(d, o, left);
        let r = it.next();
        let (q, rest) = it.state();
        if left == 0 {
            assert!(r.is_none() && rest == 0);
        } else {
            check(d, o, r);
            // (a walk may also end by giving up the rest)
            let to = after(d, o);
            // (at an empty header it may also stay, and end there again)
            let stays = at(d, o) == At::Empty && q == o;
            assert!(q == to || to == 0 && rest == 0 || stays, "the walk goes on somewhere else");
            assert!(o == 0 || rest < left, "nothing bounds the walk");
            assert!(to == 0 || rest + 1 >= left, "a long walk is cut off");
        }
    });
    // Where a walk starts; it is long enough for every offset there is.
    #[cfg(pcics_states)]
    proof!(start, unwind 9, {
        let d = any_slice();
        let (o, left) = ExtendedCapabilities::new(d).state();
        assert!(o == 0x100 && left >= 3840);
    });
    // The longest list of aligned entries. It is walked to its end.
    #[cfg(not(kani))]
    proof!(longest, unwind 964, {
        let mut d = [0xffu8; 3840];
        let mut i = 0;
        while i < 960 {
            let next = if i < 959 { 0x104 + 4 * i as u32 } else { 0 };
            d[4 * i + 2] = ((next & 15) << 4) as u8;
            d[4 * i + 3] = (next >> 4) as u8;
            i += 1;
        }
        let mut it = ExtendedCapabilities::new(&d);
        let mut i = 0;
        while i < 960 {
            check(&d, 0x100 + 4 * i, it.next());
            i += 1;
        }
        assert!(it.next().is_none());
    });
    // A list that loops: the walk ends. (Natively: 4096 steps are too many to unroll; the proof is `step`.)
    #[cfg(not(kani))]
    proof!(looped, {
        let d = [0xff, 0xff, 0x01, 0x10];
        let mut it = ExtendedCapabilities::new(&d);
        let mut i = 0;
        while i < 100_000 {
            if it.next().is_none() { break }
            i += 1;
        }
        assert!(i >= 1 && i < 100_000);
    });
    // Chains over spaces of every kind: all items, to the end. (Natively.)
    #[cfg(not(kani))]
    proof!(chains, {
        let mut d: Vec<u8> = any_slice().iter().cycle().take(0xf00).copied().collect();
        d.resize(match kani::any::<u8>() % 4 { 0 => 0xf00, 1 => kani::any::<u8>() as usize, _ => 0x100 + kani::any::<u8>() as usize }, 0);
        let n = 1 + kani::any::<u8>() % 6;
        let mut o = 0x100u16;
        for i in 0..n {
            let next = match kani::any::<u8>() % 16 {
                0 => kani::any::<u16>() & 0xfff,
                1 => (0x100 + d.len() as u16).wrapping_sub(kani::any::<u16>() % 6) & 0xfff,
                _ => 0x100 + (kani::any::<u8>() & 0xfc) as u16,
            };
            let Some(b) = (o as usize).checked_sub(0x100).and_then(|o| d.get_mut(o..o + 4)) else { break };
            let id = match kani::any::<u8>() % 16 { 0 => kani::any(), _ => kani::any::<u16>() % 0x40 };
            let to = if i + 1 < n { next } else { 0 };
            b.copy_from_slice(&(id as u32 | (kani::any::<u32>() & 15) << 16 | (to as u32) << 20).to_le_bytes());
            o = to;
        }
        let mut seen = [false; 4096];
        let mut it = ExtendedCapabilities::new(&d);
        let mut o = 0x100;
        while !seen[o as usize] {
            seen[o as usize] = o != 0;
            check(&d, o, it.next());
            if o == 0 { break }
            o = after(&d, o);
        }
        assert!(it.take(20000).count() < 10000);
    });
}

/// That nothing panics, whatever the walk meets.
pub mod total {
    use super::*;
    use crate::api::capabilities::Capabilities;
    use crate::api::extended_capabilities::ExtendedCapabilities;
    fn twice<I: Iterator>(mut it: I) {
        core::mem::forget(it.next());
        core::mem::forget(it.next());
    }
    proof!(cap, unwind 9, {
        let d = any_slice();
        let h = any_header();
        decoders();
        let it = Capabilities::new(d, &h);
        #[cfg(not(all(kani, pcics_states)))]
        twice(it);
        #[cfg(pcics_states)]
        core::mem::forget(Capabilities::at(d, &h, kani::any(), kani::any()).next());
    });
    proof!(ecap, unwind 9, {
        let d = any_slice();
        decoders();
        let it = ExtendedCapabilities::new(d);
        #[cfg(not(all(kani, pcics_states)))]
        twice(it);
        #[cfg(pcics_states)]
        {
            let o: u16 = kani::any();
            kani::assume(o <= 0xfff);
            core::mem::forget(ExtendedCapabilities::at(d, o, kani::any()).next());
        }
    });
}

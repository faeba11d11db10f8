//! Iterators of any length, by induction: `start` proves the state in which an accessor hands an
//! iterator out, `step` proves for every state what one call of `next` yields and the state it
//! leaves. Together they determine the whole sequence, for any number of items. The states come
//! from the hooks in /repo under cfg(pcics_states); where these do not compile, the unrolled
//! proofs marked `bounded!` in cap.rs and ecap.rs stand in.
//! `whole` runs an iteration from end to end, natively only: it shows a failing input when one of
//! the proofs fails.
use crate::util::*;

/// A slice of arbitrary contents and of any length up to 4 GiB: the pointer arithmetic of the core
/// library's slice iterators is only modelled exactly below the verifier's address limit.
fn any_bytes() -> &'static [u8] {
    let d = any_slice();
    kani::assume(d.len() <= 1 << 32);
    d
}
/// `c` has the complete chunks (of `k` bytes) of `d` left, in order.
#[cfg(pcics_states)]
fn left(c: core::slice::Chunks<u8>, d: &[u8], k: usize) -> bool {
    let (first, last) = (c.clone().next(), c.last());
    match (first, last) {
        (Some(f), Some(l)) => {
            let total = unsafe { l.as_ptr().add(l.len()).offset_from(f.as_ptr()) } as usize;
            total / k == d.len() / k && (total < k || (f.as_ptr() == d.as_ptr() && f.len() == k))
        }
        _ => d.len() < k,
    }
}
/// The same bytes of memory.
#[cfg(pcics_states)]
fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && (a.len() == 0 || a.as_ptr() == b.as_ptr()) }

pub mod cap {
    use super::*;
    pub mod ea {
        use super::*;
        use crate::contracts::cap::ea as spec;
        use pcics::capabilities::enhanced_allocation::*;
        use pcics::header::Header;
        #[cfg(pcics_states)]
        proof!(start, {
            let mut h = [0u8; 64];
            h[0xe] = kani::any();
            let header = Header::from(h);
            let bridge = h[0xe] & 0x7f == 1;
            let d = any_bytes();
            if let Ok(v) = EnhancedAllocation::try_new(d, &header) {
                kani::cover!(bridge);
                kani::cover!(!bridge);
                let (data, count) = v.entries.state();
                assert!(count == d[0] & 0x3f && same(data, &d[if bridge { 6 } else { 2 }..]));
            }
        });
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            let count: u8 = kani::any();
            let mut it = EnhancedAllocationEntries::new(d, count);
            let want = if count > 0 { spec::entry(d) } else { None };
            let got = it.next();
            let (data, left) = it.state();
            kani::cover!(got.is_some());
            match want {
                Some((e, next)) => assert!(got == Some(e) && left == count - 1 && same(data, &d[next..])),
                // and nothing from then on
                None => assert!(got.is_none() && (left == 0 || spec::entry(data).is_none())),
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let mut h = [0u8; 64];
            h[0xe] = kani::any();
            let header = Header::from(h);
            let bridge = h[0xe] & 0x7f == 1;
            let d = any_bytes();
            if let Ok(v) = EnhancedAllocation::try_new(d, &header) {
                let mut rest = &d[if bridge { 6 } else { 2 }..];
                let mut want = Vec::new();
                while want.len() < (d[0] & 0x3f) as usize {
                    let Some((e, next)) = spec::entry(rest) else { break };
                    want.push(e);
                    rest = &rest[next..];
                }
                let got: Vec<_> = v.entries.take(100).collect();
                assert_eq!(got, want);
            }
        }
    }
}
pub mod ecap {
    use super::*;
    pub mod acs {
        use super::*;
        use crate::contracts::ecap::acs as spec;
        use crate::contracts::{b, w};
        use pcics::extended_capabilities::access_control_services::*;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = AccessControlServices::try_from(d) {
                let n = spec::vector_bits(w(d, 0));
                let bytes = (n + 31) / 32 * 4;
                let there = n > 0 && d.len() - 4 >= bytes;
                kani::cover!(there);
                let (chunks, _, mask, size) = v.egress_control_vectors().state();
                if there {
                    assert!(size == n && mask == 1 && left(chunks, &d[4..4 + bytes], 4));
                } else {
                    assert!(size == 0 || (mask == 1 && left(chunks, &[], 1)));
                }
            }
        });
        // The bits of a whole number of dwords, the lowest first.
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            kani::assume(d.len() % 4 == 0);
            let (dword, at, size): (u32, u32, usize) = (kani::any(), kani::any(), kani::any());
            kani::assume(at < 32);
            let mut it = EgressControlVectors::at(d, dword, 1 << at, size);
            let got = it.next();
            let (chunks, word, mask, rest) = it.state();
            if size == 0 {
                assert!(got.is_none() && rest == 0);
            } else if at == 0 && d.len() == 0 {
                assert!(got.is_none() && (rest == 0 || (mask == 1 && left(chunks, &[], 1))));
            } else {
                kani::cover!(at == 0);
                kani::cover!(at == 31);
                let x = if at == 0 { crate::contracts::dw(d, 0) } else { dword };
                assert!(got == Some(x >> at & 1 == 1));
                assert!(rest == size - 1 && mask == (1u32 << at).rotate_left(1) && (mask == 1 || word == x));
                assert!(left(chunks, if at == 0 { &d[4..] } else { d }, 4));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            if let Ok(v) = AccessControlServices::try_from(d) {
                let n = spec::vector_bits(w(d, 0));
                let n = if d.len() - 4 >= (n + 31) / 32 * 4 { n } else { 0 };
                let want: Vec<_> = (0..n).map(|i| b(d[4 + i / 8], i as u32 % 8)).collect();
                assert_eq!(v.egress_control_vectors().take(300).collect::<Vec<_>>(), want);
            }
        }
    }
    pub mod spcie {
        use super::*;
        use crate::contracts::w;
        use pcics::capabilities::pci_express::LinkWidth;
        use pcics::extended_capabilities::secondary_pci_express::*;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = SecondaryPciExpress::try_from(d) {
                let x: u8 = kani::any();
                kani::assume(x <= 63);
                let n = core::cmp::min(2 * x as usize, d.len() - 8);
                kani::cover!(n > 2);
                assert!(left(v.equalization_control_lanes(LinkWidth::from(x)).state(), &d[8..8 + n], 2));
            }
        });
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            let mut it = EqualizationControlLanes::new(d);
            let got = it.next();
            if d.len() >= 2 {
                assert!(got == Some(LaneEqualizationControl::from(w(d, 0))) && left(it.state(), &d[2..], 2));
            } else {
                assert!(got.is_none() && left(it.state(), &[], 2));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            let x: u8 = kani::any();
            if x <= 63 {
                if let Ok(v) = SecondaryPciExpress::try_from(d) {
                    let n = (x as usize).min((d.len() - 8) / 2);
                    let want: Vec<_> = (0..n).map(|i| LaneEqualizationControl::from(w(d, 8 + 2 * i))).collect();
                    assert_eq!(v.equalization_control_lanes(LinkWidth::from(x)).take(100).collect::<Vec<_>>(), want);
                }
            }
        }
    }
    pub mod pmux {
        use super::*;
        use crate::contracts::ecap::pmux as spec;
        use crate::contracts::f8;
        use pcics::extended_capabilities::protocol_multiplexing::*;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = ProtocolMultiplexing::try_from(d) {
                let n = f8(d[4], 5, 0) as usize;
                kani::cover!(n > 40);
                assert!(left(v.pmux_protocol_array.0, &d[16..16 + 4 * n], 4));
            }
        });
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            let mut it = PmuxProtocolArray::new(d);
            let got = it.next();
            if d.len() >= 4 {
                assert!(got == Some(spec::entry(d, 0)) && left(it.0, &d[4..], 4));
            } else {
                assert!(got.is_none() && left(it.0, &[], 4));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            if let Ok(v) = ProtocolMultiplexing::try_from(d) {
                let want: Vec<_> = (0..f8(d[4], 5, 0) as usize).map(|i| spec::entry(d, 16 + 4 * i)).collect();
                assert_eq!(v.pmux_protocol_array.take(100).collect::<Vec<_>>(), want);
            }
        }
    }
    pub mod rc_link {
        use super::*;
        use crate::contracts::ecap::rc_link as spec;
        use pcics::extended_capabilities::root_complex_link_declaration::*;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = RootComplexLinkDeclaration::try_from(d) {
                let n = core::cmp::min(16 * d[1] as usize, d.len() - 12);
                kani::cover!(n > 160);
                assert!(left(v.link_entries.rest(), &d[12..12 + n], 16));
                assert!(v.link_entries.state == spec::state(d.len() - 12, d[1] as usize));
            }
        });
        #[cfg(pcics_states)]
        proof!(new, {
            let d = any_bytes();
            let n: u8 = kani::any();
            let it = LinkEntries::new(d, n);
            assert!(it.state == spec::state(d.len(), n as usize));
            assert!(left(it.rest(), &d[..core::cmp::min(16 * n as usize, d.len())], 16));
        });
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            kani::assume(d.len() <= 255 * 16);
            let mut it = LinkEntries::new(d, 255);
            let got = it.next();
            if d.len() >= 16 {
                assert!(got == Some(spec::link_entry(d, 0)) && left(it.rest(), &d[16..], 16));
            } else {
                assert!(got.is_none() && left(it.rest(), &[], 16));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            if let Ok(v) = RootComplexLinkDeclaration::try_from(d) {
                assert_eq!(v.link_entries.state, spec::state(d.len() - 12, d[1] as usize));
                let n = (d[1] as usize).min((d.len() - 12) / 16);
                let want: Vec<_> = (0..n).map(|i| spec::link_entry(d, 12 + 16 * i)).collect();
                assert_eq!(v.link_entries.take(300).collect::<Vec<_>>(), want);
            }
        }
    }
    pub mod vc {
        use super::*;
        use crate::contracts::ecap::vc as spec;
        use crate::contracts::f8;
        use crate::ecap::vc::entry;
        use pcics::extended_capabilities::virtual_channel::*;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = VirtualChannel::try_from(d) {
                let (data, count, offset) = v.extended_virtual_channels().state();
                assert!(count == f8(d[0], 2, 0) + 1);
                assert!(offset <= data.len() && same(&data[offset..], &d[12..]));
            }
        });
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            let (count, offset): (u8, usize) = (kani::any(), kani::any());
            kani::assume(count <= 8 && offset <= 12 * 16);
            let mut it = ExtendedVirtualChannels::at(d, count, offset);
            let got = it.next();
            let (data, left, next) = it.state();
            if count > 0 && d.len() >= offset + 12 {
                kani::cover!(true);
                assert!(got == Some(Ok(spec::channel(d, offset))));
                assert!(left == count - 1 && next == offset + 12 && same(data, d));
            } else {
                assert!(got.is_none() && (left == 0 || data.len() < next + 12));
            }
        });
        #[cfg(pcics_states)]
        proof!(vc_table_start, {
            let d = any_bytes();
            if let Ok(v) = VirtualChannel::try_from(d) {
                let n = spec::vc_table_entries(f8(d[8], 3, 1)) / 2;
                let o = d[7] as usize * 16;
                let there = o > 0 && d.len() >= o - 4 + n;
                kani::cover!(there && n == 64);
                let (data, held) = v.vc_arbitration_table().state();
                assert!(held.is_none() && same(data, if there { &d[o - 4..o - 4 + n] } else { &[] }));
            }
        });
        #[cfg(pcics_states)]
        proof!(vc_table_step, {
            let d = any_bytes();
            let (held, id): (bool, u8) = (kani::any(), kani::any());
            let mut it = VcArbitrationTable::at(d, if held { Some(VcArbitrationTableEntry { vc_id: id }) } else { None });
            let got = it.next();
            let (data, next) = it.state();
            if held {
                assert!(got == Some(VcArbitrationTableEntry { vc_id: id }) && next.is_none() && same(data, d));
            } else if d.len() > 0 {
                assert!(got == Some(VcArbitrationTableEntry { vc_id: d[0] & 7 }) && next == Some(d[0] >> 4 & 7) && same(data, &d[1..]));
            } else {
                assert!(got.is_none() && next.is_none() && data.len() == 0);
            }
        });
        #[cfg(pcics_states)]
        proof!(port_table_start, {
            let d = any_bytes();
            if let Ok(v) = VirtualChannel::try_from(d) {
                let x: [u8; 12] = kani::any();
                let c = spec::channel(&x, 0);
                let bits = spec::entry_bits(f8(d[1], 3, 2));
                let n = spec::port_table_entries(f8(x[6], 3, 1)) * bits / 8;
                let o = x[3] as usize * 16;
                let there = o > 0 && d.len() >= o - 4 + n;
                kani::cover!(there && n == 256);
                let (data, size, shift, _) = v.port_arbitration_table(&c).state();
                assert!(size == bits && shift == 0);
                assert!(same(data, if there { &d[o - 4..o - 4 + n] } else { &[] }));
            }
        });
        #[cfg(pcics_states)]
        proof!(port_table_step, {
            let d = any_bytes();
            let (p, shift, byte): (u8, usize, u8) = (kani::any(), kani::any(), kani::any());
            kani::assume(p <= 3 && shift < 8);
            let bits = spec::entry_bits(p);
            kani::assume(shift & (bits - 1) == 0);
            let mut it = PortArbitrationTable::at(d, bits, shift, byte);
            let got = it.next();
            let (data, size, next, held) = it.state();
            assert!(size == bits);
            if shift == 0 && d.len() == 0 {
                assert!(got.is_none() && next == 0 && data.len() == 0);
            } else {
                kani::cover!(bits == 8);
                kani::cover!(bits == 1 && shift == 7);
                let x = if shift == 0 { d[0] } else { byte };
                assert!(got == entry(x >> shift & (0xffu8 >> (8 - bits))));
                assert!(next == (shift + bits) & 7 && (next == 0 || held == x));
                assert!(same(data, if shift == 0 { &d[1..] } else { d }));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            if let Ok(v) = VirtualChannel::try_from(d) {
                let n = (f8(d[0], 2, 0) as usize + 1).min((d.len() - 12) / 12);
                let want: Vec<_> = (0..n).map(|i| Ok(spec::channel(d, 12 + 12 * i))).collect();
                assert_eq!(v.extended_virtual_channels().take(20).collect::<Vec<_>>(), want);
                let n = spec::vc_table_entries(f8(d[8], 3, 1));
                let o = d[7] as usize * 16;
                let n = if o > 0 && d.len() >= o - 4 + n / 2 { n } else { 0 };
                let want: Vec<_> = (0..n).map(|i| VcArbitrationTableEntry { vc_id: d[o - 4 + i / 2] >> (i % 2 * 4) & 7 }).collect();
                assert_eq!(v.vc_arbitration_table().take(300).collect::<Vec<_>>(), want);
                let bits = spec::entry_bits(f8(d[1], 3, 2));
                for c in v.extended_virtual_channels() {
                    let c = c.unwrap();
                    let n = c.vc_resource_control.port_arbitration_select.port_arbitration_table_length();
                    let o = c.vc_resource_capability.port_arbitration_table_offset as usize * 16;
                    let n = if o > 0 && d.len() >= o - 4 + n * bits / 8 { n } else { 0 };
                    let want: Vec<_> = (0..n).map(|i| entry((d[o - 4 + i * bits / 8] >> (i * bits % 8)) & (0xffu8 >> (8 - bits))).unwrap()).collect();
                    assert_eq!(v.port_arbitration_table(&c).take(300).collect::<Vec<_>>(), want);
                }
            }
        }
    }
    pub mod mfvc {
        use super::*;
        use crate::contracts::ecap::mfvc as spec;
        use crate::contracts::ecap::vc;
        use crate::contracts::f8;
        use crate::ecap::mfvc::entry;
        use pcics::extended_capabilities::multifunction_virtual_channel::*;
        use pcics::extended_capabilities::virtual_channel::VcArbitrationTableEntry;
        #[cfg(pcics_states)]
        proof!(start, {
            let d = any_bytes();
            if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
                let (data, count, bits, offset) = v.extended_virtual_channels.state();
                assert!(count == f8(d[4], 2, 0) + 1 && bits == vc::entry_bits(f8(d[5], 3, 2)));
                assert!(offset == 16 && same(data, d));
                let o = d[11] as usize * 16;
                let n = vc::vc_table_entries(f8(d[12], 3, 1)) / 2;
                kani::cover!(o > 0 && n == 64);
                match v.vc_arbitration_table {
                    Some(t) => {
                        let (data, held) = t.state();
                        assert!(o > 0 && held.is_none() && same(data, &d[o..o + n]));
                    }
                    None => assert!(o == 0),
                }
            }
        });
        // One channel and its function arbitration table: the bytes at its offset, or none.
        #[cfg(pcics_states)]
        proof!(step, {
            let d = any_bytes();
            let (count, p, offset): (u8, u8, usize) = (kani::any(), kani::any(), kani::any());
            kani::assume(count <= 8 && offset <= 12 * 16 && p <= 3);
            let bits = vc::entry_bits(p);
            let mut it = ExtendedVirtualChannels::at(d, count, bits, offset);
            let got = it.next();
            let (data, left, size, next) = it.state();
            if count > 0 && d.len() >= offset + 12 {
                let s = spec::channel(d, offset);
                let c = got.unwrap();
                assert!(c.vc_resource_capability == s.vc_resource_capability);
                assert!(c.vc_resource_control == s.vc_resource_control);
                assert!(c.vc_resource_status == s.vc_resource_status);
                let o = d[offset + 3] as usize * 16;
                let n = vc::port_table_entries(f8(d[offset + 6], 3, 1)) * bits / 8;
                let there = o >= 32 && d.len() >= o + n;
                kani::cover!(there && n == 256);
                match c.function_arbitration_table {
                    Some(t) => {
                        let (data, size, shift, _) = t.state();
                        assert!(there && size == bits && shift == 0 && same(data, &d[o..o + n]));
                    }
                    None => assert!(!there),
                }
                assert!(left == count - 1 && size == bits && next == offset + 12 && same(data, d));
            } else {
                assert!(got.is_none() && (left == 0 || data.len() < next + 12));
            }
        });
        #[cfg(pcics_states)]
        proof!(function_table_step, {
            let d = any_bytes();
            let (p, shift, byte): (u8, usize, u8) = (kani::any(), kani::any(), kani::any());
            kani::assume(p <= 3 && shift < 8);
            let bits = vc::entry_bits(p);
            kani::assume(shift & (bits - 1) == 0);
            let mut it = FunctionArbitrationTable::at(d, bits, shift, byte);
            let got = it.next();
            let (data, size, next, held) = it.state();
            assert!(size == bits);
            if shift == 0 && d.len() == 0 {
                assert!(got.is_none() && next == 0 && data.len() == 0);
            } else {
                kani::cover!(bits == 8);
                kani::cover!(bits == 1 && shift == 7);
                let x = if shift == 0 { d[0] } else { byte };
                assert!(got == entry(x >> shift & (0xffu8 >> (8 - bits))));
                assert!(next == (shift + bits) & 7 && (next == 0 || held == x));
                assert!(same(data, if shift == 0 { &d[1..] } else { d }));
            }
        });
        #[cfg(not(kani))]
        pub fn whole() {
            let d = any_bytes();
            if let Ok(v) = MultifunctionVirtualChannel::try_from(d) {
                let n = vc::vc_table_entries(f8(d[12], 3, 1));
                let o = d[11] as usize * 16;
                assert_eq!(v.vc_arbitration_table.is_some(), o > 0);
                if let Some(t) = v.vc_arbitration_table {
                    let want: Vec<_> = (0..n).map(|i| VcArbitrationTableEntry { vc_id: d[o + i / 2] >> (i % 2 * 4) & 7 }).collect();
                    assert_eq!(t.take(300).collect::<Vec<_>>(), want);
                }
                let n = (f8(d[4], 2, 0) as usize + 1).min((d.len() - 16) / 12);
                let bits = vc::entry_bits(f8(d[5], 3, 2));
                let got: Vec<_> = v.extended_virtual_channels.take(20).collect();
                assert_eq!(got.len(), n);
                for (i, c) in got.into_iter().enumerate() {
                    let s = spec::channel(d, 16 + 12 * i);
                    assert_eq!(c.vc_resource_capability, s.vc_resource_capability);
                    assert_eq!(c.vc_resource_control, s.vc_resource_control);
                    assert_eq!(c.vc_resource_status, s.vc_resource_status);
                    let n = vc::port_table_entries(f8(d[16 + 12 * i + 6], 3, 1));
                    let o = d[16 + 12 * i + 3] as usize * 16;
                    assert_eq!(c.function_arbitration_table.is_some(), o >= 32 && d.len() >= o + n * bits / 8);
                    if let Some(t) = c.function_arbitration_table {
                        let want: Vec<_> = (0..n).map(|i| entry((d[o + i * bits / 8] >> (i * bits % 8)) & (0xffu8 >> (8 - bits))).unwrap()).collect();
                        assert_eq!(t.take(300).collect::<Vec<_>>(), want);
                    }
                }
            }
        }
    }
}

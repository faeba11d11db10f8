use crate::contracts::{b, f8, f16};
use crate::contracts::header as spec;
use crate::util::*;
use pcics::header::*;

// Registers shared by every header layout
pub mod common {
    use super::*;
    reg! {
        command: Command, u16, spec::command;
        class_code: ClassCode, [u8; 3], spec::class_code;
        bist: BuiltInSelfTest, u8, spec::bist;
        interrupt_pin: InterruptPin, u8, spec::interrupt_pin;
    }
    regp! {
        status: Status<'P'>, u16, spec::status;
    }
    proof!(devsel, {
        let x: u8 = kani::any();
        kani::assume(x <= 3);
        assert!(DevselTiming::from(x) == spec::devsel(x));
    });
    proof!(registers, {
        let d: [u8; 64] = kani::any();
        let h = Header::from(d);
        assert!(spec::header_common(&d, &h));
    });
}
// Layout selected by the header type
pub mod layout {
    use super::*;
    reg! {
        bridge_control: BridgeControl, u16, spec::bridge_control;
        cardbus_bridge_control: CardbusBridgeControl, u16, spec::cardbus_bridge_control;
        expansion_rom: ExpansionRom, u32, spec::expansion_rom;
        cardbus_io: IoAccessAddressRange, [[u16; 2]; 2], spec::cardbus_io_pairs;
        cardbus_io_flat: IoAccessAddressRange, [u16; 4], spec::cardbus_io_flat;
    }
    regp! {
        status_secondary: Status<'B'>, u16, spec::status;
        status_cardbus: Status<'C'>, u16, spec::status;
    }
    proof!(bridge_io, {
        let (a, b, c, d) = (kani::any(), kani::any(), kani::any(), kani::any());
        assert!(BridgeIoAddressRange::new(a, b, c, d) == spec::bridge_io(a, b, c, d));
    });
    proof!(bridge_prefetchable, {
        let (a, b, c, d) = (kani::any(), kani::any(), kani::any(), kani::any());
        assert!(BridgePrefetchableMemory::new(a, b, c, d) == spec::bridge_prefetchable(a, b, c, d));
    });
    proof!(registers, {
        let d: [u8; 64] = kani::any();
        let h = Header::from(d);
        assert!(spec::header_layout(&d, &h.header_type));
        assert!(u8::from(&h.header_type) == f8(d[0xe], 6, 0));
        let rom = match f8(d[0xe], 6, 0) { 0 => Some(0x30), 1 => Some(0x38), _ => None };
        assert!(h.header_type.expansion_rom() == rom.map(|o| spec::expansion_rom(crate::contracts::dw(&d, o))));
    });
    proof!(cardbus_optional, unwind 80, {
        let mut h: [u8; 64] = kani::any();
        h[0xe] = 2;
        let d = any_slice();
        if let HeaderType::Cardbus(mut c) = Header::from(h).header_type {
            let r = c.try_set_optional_registers(d);
            kani::cover!(r.is_ok());
            kani::cover!(r.is_err());
            assert!(spec::cardbus_optional(d, r.is_ok(), &c));
        } else {
            assert!(false);
        }
    });
}
// Slices of any length
pub mod slice {
    use super::*;
    dec! {
        header: Header, spec::header_slice;
    }
}
// Base address registers
pub mod bar {
    use super::*;
    /// Every item of the iteration, to the end and past it.
    fn all<const N: usize>() {
        let d: [u32; N] = kani::any();
        let mut it = BaseAddresses::new(d);
        let mut region = 0;
        let mut i = 0;
        while i < N + 2 {
            let (item, next) = spec::bar_next(d, region);
            assert!(it.next() == item);
            region = next;
            i += 1;
        }
        let orig = it.orig();
        let mut i = 0;
        while i < N {
            assert!(orig[i] == d[i]);
            i += 1;
        }
    }
    /// Items collected back into registers decode to the same items.
    fn collect<const N: usize>() {
        let d: [u32; N] = kani::any();
        let e: [u32; N] = BaseAddresses::new(d).collect();
        let (mut r, mut s) = (0, 0);
        let mut i = 0;
        while i < N + 1 {
            let (x, rn) = spec::bar_next(d, r);
            let (y, sn) = spec::bar_next(e, s);
            assert!(x == y);
            r = rn;
            s = sn;
            i += 1;
        }
    }
    fn any_kind() -> BaseAddressType {
        let prefetchable: bool = kani::any();
        let base_address: u32 = kani::any();
        match kani::any::<u8>() {
            0 => BaseAddressType::MemorySpace32 { prefetchable, base_address },
            1 => BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address },
            2 => BaseAddressType::MemorySpace64 { prefetchable, base_address: kani::any() },
            3 => BaseAddressType::MemorySpaceReserved { prefetchable, base_address },
            4 => BaseAddressType::MemorySpace64Broken { prefetchable },
            _ => BaseAddressType::IoSpace { base_address },
        }
    }
    proof!(iter_type0, unwind 10, { all::<6>() });
    proof!(iter_type1, unwind 6, { all::<2>() });
    proof!(iter_type2, unwind 5, { all::<1>() });
    proof!(collect_type0, unwind 10, { collect::<6>() });
    proof!(collect_type1, unwind 6, { collect::<2>() });
    proof!(collect_type2, unwind 5, { collect::<1>() });
    // Any items, in any order, at any region: no panic, and the last one is found where it says
    proof!(collect_any, unwind 10, {
        let items = [
            BaseAddress { region: kani::any(), base_address_type: any_kind() },
            BaseAddress { region: kani::any(), base_address_type: any_kind() },
        ];
        let d: [u32; 6] = items.iter().collect();
        let last = &items[1];
        if last.region < 6 {
            let want = spec::bar_dword(&last.base_address_type);
            assert!(d[last.region] == want.0);
            if let (Some(upper), true) = (want.1, last.region < 5) {
                assert!(d[last.region + 1] == upper);
            }
        }
    });
    proof!(eq_is_items, unwind 6, {
        let (d, e): ([u32; 2], [u32; 2]) = (kani::any(), kani::any());
        let same = spec::bar_next(d, 0) == spec::bar_next(e, 0)
            && { let (n, m) = (spec::bar_next(d, 0).1, spec::bar_next(e, 0).1);
                 spec::bar_next(d, n).0 == spec::bar_next(e, m).0 };
        assert!((BaseAddresses::new(d) == BaseAddresses::new(e)) == same);
    });
}
// Encoders
pub mod encode {
    use super::*;
    proof!(bist, {
        let t = BuiltInSelfTest { is_capable: kani::any(), is_running: kani::any(), completion_code: kani::any() };
        assert!(u8::from(t.clone()) == spec::bist_byte(&t));
        let x: u8 = kani::any();
        assert!(u8::from(BuiltInSelfTest::from(x)) == x & 0xcf);
    });
    proof!(interrupt_pin, {
        let x: u8 = kani::any();
        assert!(u8::from(InterruptPin::from(x)) == x);
        let p = InterruptPin::Reserved(x);
        assert!(u8::from(p) == x);
    });
    proof!(expansion_rom, {
        let x: u32 = kani::any();
        assert!(u32::from(ExpansionRom::from(x)) == x);
        assert!(u64::from(ExpansionRom::from(x)) == x as u64);
        let r = ExpansionRom { address: kani::any(), reserved: kani::any(), is_enabled: kani::any() };
        kani::assume(r.address & 0x7ff == 0 && r.reserved < 0x400);
        assert!(u32::from(r.clone()) == spec::expansion_rom_dword(&r));
        assert!(ExpansionRom::from(u32::from(r.clone())) == r);
    });
    proof!(cardbus_io, {
        let r = match kani::any::<u8>() {
            0 => IoAccessAddressRange::Addr16Bit { base: kani::any(), limit: kani::any() },
            1 => IoAccessAddressRange::Addr32Bit { base: kani::any(), limit: kani::any() },
            _ => IoAccessAddressRange::Unknown {
                io_address_capability: kani::any(),
                base_lower: kani::any(),
                base_upper: kani::any(),
                limit_lower: kani::any(),
                limit_upper: kani::any(),
            },
        };
        assert!(<[[u16; 2]; 2]>::from(r.clone()) == spec::cardbus_io_words(&r));
        let d: [[u16; 2]; 2] = kani::any();
        let x = IoAccessAddressRange::from(d);
        assert!(IoAccessAddressRange::from(<[[u16; 2]; 2]>::from(x.clone())) == x);
    });
    proof!(header_type, {
        let v: u8 = kani::any();
        assert!(u8::from(HeaderType::Reserved(v)) == v);
        assert!(u8::from(&HeaderType::Reserved(v)) == v);
    });
}

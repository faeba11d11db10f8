use super::api::header::*;
use super::{b, dw, f8, f16, w};

/// PCI 3.0 6.2.2 / PCI_COMMAND
pub fn command(x: u16) -> Command {
    Command {
        io_space: b(x, 0),
        memory_space: b(x, 1),
        bus_master: b(x, 2),
        special_cycles: b(x, 3),
        memory_write_and_invalidate_enable: b(x, 4),
        vga_palette_snoop: b(x, 5),
        parity_error_response: b(x, 6),
        stepping: b(x, 7),
        serr_enable: b(x, 8),
        fast_back_to_back_enable: b(x, 9),
        interrupt_disable: b(x, 10),
        reserved: f8(x, 15, 11),
    }
}
pub fn devsel(x: u8) -> DevselTiming {
    match x {
        0 => DevselTiming::Fast,
        1 => DevselTiming::Medium,
        2 => DevselTiming::Slow,
        _ => DevselTiming::Undefined,
    }
}
/// PCI 3.0 6.2.3 / PCI_STATUS, PCI_SEC_STATUS, PCI_CB_SEC_STATUS
pub fn status<const T: char>(x: u16) -> Status<T> {
    Status {
        reserved: f8(x, 2, 0),
        interrupt_status: b(x, 3),
        capabilities_list: b(x, 4),
        is_66mhz_capable: b(x, 5),
        user_definable_features: b(x, 6),
        fast_back_to_back_capable: b(x, 7),
        master_data_parity_error: b(x, 8),
        devsel_timing: devsel(f8(x, 10, 9)),
        signaled_target_abort: b(x, 11),
        received_target_abort: b(x, 12),
        received_master_abort: b(x, 13),
        system_error: b(x, 14),
        detected_parity_error: b(x, 15),
    }
}
/// PCI_BRIDGE_CONTROL
pub fn bridge_control(x: u16) -> BridgeControl {
    BridgeControl {
        parity_error_response_enable: b(x, 0),
        serr_enable: b(x, 1),
        isa_enable: b(x, 2),
        vga_enable: b(x, 3),
        vga_16_enable: b(x, 4),
        master_abort_mode: b(x, 5),
        secondary_bus_reset: b(x, 6),
        fast_back_to_back_enable: b(x, 7),
        primary_discard_timer: b(x, 8),
        secondary_discard_timer: b(x, 9),
        discard_timer_status: b(x, 10),
        discard_timer_serr_enable: b(x, 11),
    }
}
/// PCI_CB_BRIDGE_CONTROL
pub fn cardbus_bridge_control(x: u16) -> CardbusBridgeControl {
    CardbusBridgeControl {
        parity_error_response_enable: b(x, 0),
        serr_enable: b(x, 1),
        isa_enable: b(x, 2),
        vga_enable: b(x, 3),
        master_abort_mode: b(x, 5),
        cardbus_reset: b(x, 6),
        ireq_int_enable: b(x, 7),
        memory_0_prefetch_enable: b(x, 8),
        memory_1_prefetch_enable: b(x, 9),
        write_posting_enable: b(x, 10),
    }
}
/// 0x09 interface, 0x0a sub-class, 0x0b base class
pub fn class_code(d: [u8; 3]) -> ClassCode { ClassCode { interface: d[0], sub: d[1], base: d[2] } }
/// PCI_BIST
pub fn bist(x: u8) -> BuiltInSelfTest {
    BuiltInSelfTest { is_capable: b(x, 7), is_running: b(x, 6), completion_code: f8(x, 3, 0) }
}
/// Encoding keeps every field of the register; reserved bits 5:4 are written as zero.
pub fn bist_byte(t: &BuiltInSelfTest) -> u8 {
    (t.is_capable as u8) << 7 | (t.is_running as u8) << 6 | t.completion_code & 0xf
}
/// PCI_INTERRUPT_PIN
pub fn interrupt_pin(x: u8) -> InterruptPin {
    match x {
        0 => InterruptPin::Unused,
        1 => InterruptPin::IntA,
        2 => InterruptPin::IntB,
        3 => InterruptPin::IntC,
        4 => InterruptPin::IntD,
        x => InterruptPin::Reserved(x),
    }
}
pub fn interrupt_pin_byte(p: &InterruptPin) -> u8 {
    match p {
        InterruptPin::Unused => 0,
        InterruptPin::IntA => 1,
        InterruptPin::IntB => 2,
        InterruptPin::IntC => 3,
        InterruptPin::IntD => 4,
        InterruptPin::Reserved(x) => *x,
    }
}
/// PCI_ROM_ADDRESS: bit 0 enable, bits 31:11 address
pub fn expansion_rom(x: u32) -> ExpansionRom {
    ExpansionRom { is_enabled: b(x, 0), reserved: f16(x, 10, 1), address: x & 0xffff_f800 }
}
pub fn expansion_rom_dword(r: &ExpansionRom) -> u32 {
    r.address | (r.reserved as u32) * 2 | r.is_enabled as u32
}
/// PCI-to-PCI bridge 1.2, 3.2.5.6: I/O base/limit (type in bits 3:0, A15:A12 in 7:4) and upper 16 bits
pub fn bridge_io(base: u8, limit: u8, base_up: u16, limit_up: u16) -> BridgeIoAddressRange {
    let (bt, lt) = (f8(base, 3, 0), f8(limit, 3, 0));
    if bt != lt {
        BridgeIoAddressRange::Malformed { base, limit }
    } else if bt == 0 {
        if base == 0 && limit == 0 {
            BridgeIoAddressRange::NotImplemented
        } else {
            BridgeIoAddressRange::IoAddr16 { base: f16(base, 7, 4) << 12, limit: f16(limit, 7, 4) << 12 }
        }
    } else if bt == 1 {
        BridgeIoAddressRange::IoAddr32 {
            base: (base_up as u32) << 16 | (f8(base, 7, 4) as u32) << 12,
            limit: (limit_up as u32) << 16 | (f8(limit, 7, 4) as u32) << 12,
        }
    } else {
        BridgeIoAddressRange::Reserved { base, limit }
    }
}
/// PCI-to-PCI bridge 1.2, 3.2.5.9: prefetchable base/limit (type in 3:0, A31:A20 in 15:4) and upper 32 bits
pub fn bridge_prefetchable(base: u16, limit: u16, base_up: u32, limit_up: u32) -> BridgePrefetchableMemory {
    let (bt, lt) = (f8(base, 3, 0), f8(limit, 3, 0));
    if bt != lt {
        BridgePrefetchableMemory::Malformed { base, limit }
    } else if bt == 0 {
        if base == 0 && limit == 0 {
            BridgePrefetchableMemory::NotImplemented
        } else {
            BridgePrefetchableMemory::MemAddr32 {
                base: (f16(base, 15, 4) as u32) << 20,
                limit: (f16(limit, 15, 4) as u32) << 20,
            }
        }
    } else if bt == 1 {
        BridgePrefetchableMemory::MemAddr64 {
            base: (base_up as u64) << 32 | (f16(base, 15, 4) as u64) << 20,
            limit: (limit_up as u64) << 32 | (f16(limit, 15, 4) as u64) << 20,
        }
    } else {
        BridgePrefetchableMemory::Reserved { base, limit }
    }
}
/// PC Card: CardBus I/O base/limit pairs; bits 1:0 of the base are the address capability
pub fn cardbus_io(base_lo: u16, base_up: u16, limit_lo: u16, limit_up: u16) -> IoAccessAddressRange {
    let base = (base_up as u32) << 16 | (base_lo & 0xfffc) as u32;
    let limit = (limit_up as u32) << 16 | (limit_lo & 0xfffc) as u32;
    match f8(base_lo, 1, 0) {
        0 => IoAccessAddressRange::Addr16Bit { base: base as u16, limit: limit as u16 },
        1 => IoAccessAddressRange::Addr32Bit { base, limit },
        io_address_capability => IoAccessAddressRange::Unknown {
            io_address_capability,
            base_lower: base as u16,
            base_upper: base_up,
            limit_lower: limit as u16,
            limit_upper: limit_up,
        },
    }
}
pub fn cardbus_io_pairs(d: [[u16; 2]; 2]) -> IoAccessAddressRange { cardbus_io(d[0][0], d[0][1], d[1][0], d[1][1]) }
pub fn cardbus_io_flat(d: [u16; 4]) -> IoAccessAddressRange { cardbus_io(d[0], d[1], d[2], d[3]) }
/// Register words of a CardBus I/O window: [base lower, base upper], [limit lower, limit upper].
pub fn cardbus_io_words(r: &IoAccessAddressRange) -> [[u16; 2]; 2] {
    match *r {
        IoAccessAddressRange::Addr16Bit { base, limit } => [[base & 0xfffc, 0], [limit & 0xfffc, 0]],
        IoAccessAddressRange::Addr32Bit { base, limit } => [
            [(base & 0xfffc) as u16 | 1, (base >> 16) as u16],
            [(limit & 0xfffc) as u16, (limit >> 16) as u16],
        ],
        IoAccessAddressRange::Unknown { io_address_capability, base_lower, base_upper, limit_lower, limit_upper } =>
            [[base_lower & 0xfffc | io_address_capability as u16 & 3, base_upper], [limit_lower & 0xfffc, limit_upper]],
    }
}

/// What the BAR iterator must yield next from `region` on, and the region it must continue at.
/// PCI 3.0 6.2.5.1
pub fn bar_next<const N: usize>(d: [u32; N], region: usize) -> (Option<BaseAddress>, usize) {
    let mut i = region;
    while i < N && d[i] == 0 {
        i += 1;
    }
    if i >= N {
        return (None, N);
    }
    let x = d[i];
    let mut end = i + 1;
    let base_address_type = if b(x, 0) {
        BaseAddressType::IoSpace { base_address: x & 0xffff_fffc }
    } else {
        let prefetchable = b(x, 3);
        let base_address = x & 0xffff_fff0;
        match f8(x, 2, 1) {
            0 => BaseAddressType::MemorySpace32 { prefetchable, base_address },
            1 => BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address },
            2 => if end < N {
                end += 1;
                BaseAddressType::MemorySpace64 {
                    prefetchable,
                    base_address: (d[i + 1] as u64) << 32 | base_address as u64,
                }
            } else {
                BaseAddressType::MemorySpace64Broken { prefetchable }
            },
            _ => BaseAddressType::MemorySpaceReserved { prefetchable, base_address },
        }
    };
    (Some(BaseAddress { region: i, base_address_type }), end)
}

/// Register value(s) of one base address.
pub fn bar_dword(t: &BaseAddressType) -> (u32, Option<u32>) {
    match *t {
        BaseAddressType::MemorySpace32 { prefetchable, base_address } =>
            (base_address & 0xffff_fff0 | (prefetchable as u32) * 8, None),
        BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address } =>
            (base_address & 0xffff_fff0 | (prefetchable as u32) * 8 | 2, None),
        BaseAddressType::MemorySpace64 { prefetchable, base_address } =>
            (base_address as u32 & 0xffff_fff0 | (prefetchable as u32) * 8 | 4, Some((base_address >> 32) as u32)),
        BaseAddressType::MemorySpaceReserved { prefetchable, base_address } =>
            (base_address & 0xffff_fff0 | (prefetchable as u32) * 8 | 6, None),
        BaseAddressType::MemorySpace64Broken { prefetchable } => ((prefetchable as u32) * 8 | 4, None),
        BaseAddressType::IoSpace { base_address } => (base_address & 0xffff_fffc | 1, None),
    }
}

pub fn array<const N: usize>(d: &[u8], o: usize) -> [u32; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = dw(d, o + 4 * i);
        i += 1;
    }
    r
}

pub fn type0(d: &[u8; 64], h: &Normal) -> bool {
    h.base_addresses.orig() == array(d, 0x10)
        && h.cardbus_cis_pointer == dw(d, 0x28)
        && h.sub_vendor_id == w(d, 0x2c)
        && h.sub_device_id == w(d, 0x2e)
        && h.expansion_rom == expansion_rom(dw(d, 0x30))
        && h.min_grant == d[0x3e]
        && h.max_latency == d[0x3f]
}
pub fn type1(d: &[u8; 64], h: &Bridge) -> bool {
    h.base_addresses.orig() == array(d, 0x10)
        && h.primary_bus_number == d[0x18]
        && h.secondary_bus_number == d[0x19]
        && h.subordinate_bus_number == d[0x1a]
        && h.secondary_latency_timer == d[0x1b]
        && h.io_address_range == bridge_io(d[0x1c], d[0x1d], w(d, 0x30), w(d, 0x32))
        && h.secondary_status == status(w(d, 0x1e))
        && h.memory_base == w(d, 0x20)
        && h.memory_limit == w(d, 0x22)
        && h.prefetchable_memory == bridge_prefetchable(w(d, 0x24), w(d, 0x26), dw(d, 0x28), dw(d, 0x2c))
        && h.expansion_rom == expansion_rom(dw(d, 0x38))
        && h.bridge_control == bridge_control(w(d, 0x3e))
}
pub fn type2(d: &[u8; 64], h: &Cardbus) -> bool {
    h.base_addresses.orig() == array(d, 0x10)
        && h.secondary_status == status(w(d, 0x16))
        && h.pci_bus_number == d[0x18]
        && h.cardbus_bus_number == d[0x19]
        && h.subordinate_bus_number == d[0x1a]
        && h.cardbus_latency_timer == d[0x1b]
        && h.memory_base_address_0 == dw(d, 0x1c)
        && h.memory_limit_address_0 == dw(d, 0x20)
        && h.memory_base_address_1 == dw(d, 0x24)
        && h.memory_limit_address_1 == dw(d, 0x28)
        && h.io_access_address_range_0 == cardbus_io(w(d, 0x2c), w(d, 0x2e), w(d, 0x30), w(d, 0x32))
        && h.io_access_address_range_1 == cardbus_io(w(d, 0x34), w(d, 0x36), w(d, 0x38), w(d, 0x3a))
        && h.bridge_control == cardbus_bridge_control(w(d, 0x3e))
        && h.subsystem_vendor_id.is_none()
        && h.subsystem_device_id.is_none()
        && h.legacy_mode_base_address.is_none()
        && h.reserved.is_none()
}
/// Layout selected by bits 6:0 of byte 0x0e.
pub fn header_layout(d: &[u8; 64], t: &HeaderType) -> bool {
    match (f8(d[0x0e], 6, 0), t) {
        (0, HeaderType::Normal(h)) => type0(d, h),
        (1, HeaderType::Bridge(h)) => type1(d, h),
        (2, HeaderType::Cardbus(h)) => type2(d, h),
        (k, HeaderType::Reserved(v)) => k > 2 && *v == k,
        _ => false,
    }
}
/// Registers at the same place in every header, and those every known layout shares.
pub fn header_common(d: &[u8; 64], h: &Header) -> bool {
    let k = f8(d[0x0e], 6, 0);
    let cap = match k { 0 | 1 => d[0x34], 2 => d[0x14], _ => 0 };
    let (line, pin) = if k <= 2 { (d[0x3c], d[0x3d]) } else { (0, 0) };
    h.vendor_id == w(d, 0)
        && h.device_id == w(d, 2)
        && h.command == command(w(d, 4))
        && h.status == status(w(d, 6))
        && h.revision_id == d[8]
        && h.class_code == class_code([d[9], d[0xa], d[0xb]])
        && h.cache_line_size == d[0xc]
        && h.latency_timer == d[0xd]
        && h.is_multi_function == b(d[0xe], 7)
        && h.bist == bist(d[0xf])
        && h.capabilities_pointer == cap & 0xfc
        && h.interrupt_line == line
        && h.interrupt_pin == interrupt_pin(pin)
}
pub fn header(d: &[u8; 64], h: &Header) -> bool { header_common(d, h) && header_layout(d, &h.header_type) }
pub fn header_slice<E>(d: &[u8], r: &Result<Header, E>) -> bool {
    match r {
        Ok(h) => d.len() >= 64 && header(d[..64].try_into().unwrap(), h),
        Err(_) => d.len() < 64,
    }
}
/// Optional registers of a CardBus bridge from offset 0x40 on.
pub fn cardbus_optional(d: &[u8], ok: bool, h: &Cardbus) -> bool {
    if d.len() < 64 {
        return !ok;
    }
    ok && h.subsystem_vendor_id == Some(w(d, 0))
        && h.subsystem_device_id == Some(w(d, 2))
        && h.legacy_mode_base_address == Some(dw(d, 4))
        && match &h.reserved { Some(r) => r[..] == d[8..64], None => false }
}
/// Code of a layout in bits 6:0 of byte 0x0e.
pub fn header_type_byte(t: &HeaderType) -> u8 {
    match t {
        HeaderType::Normal(_) => 0,
        HeaderType::Bridge(_) => 1,
        HeaderType::Cardbus(_) => 2,
        HeaderType::Reserved(v) => *v,
    }
}

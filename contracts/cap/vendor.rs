use super::super::api::capabilities::vendor_specific::*;
use super::super::{dw, same};

/// Length byte L counts the two bytes of the capability header and itself.
pub fn data(d: &[u8]) -> Result<&[u8], VendorSpecificError> {
    if d.is_empty() {
        return Err(VendorSpecificError::LengthUnreadable);
    }
    if d[0] < 2 {
        return Err(VendorSpecificError::Length { val: d[0] });
    }
    let size = d[0] as usize - 2;
    if size == 0 || d.len() < size {
        return Err(VendorSpecificError::Data { size });
    }
    Ok(&d[1..size])
}
pub fn is_virtio(vendor: u16, device: u16) -> bool { vendor == 0x1af4 && device >= 0x1000 && device <= 0x107f }
/// virtio_pci_cap, from cfg_type on
pub fn virtio(d: &[u8]) -> Result<Virtio, VendorSpecificError> {
    if d.len() < 13 {
        return Err(VendorSpecificError::Virtio);
    }
    let (bar, offset, size) = (d[1], dw(d, 5), dw(d, 9));
    Ok(match d[0] {
        1 => Virtio::CommonCfg { bar, offset, size },
        2 => Virtio::Notify { bar, offset, size, multiplier: if d.len() >= 17 { Some(dw(d, 13)) } else { None } },
        3 => Virtio::Isr { bar, offset, size },
        4 => Virtio::DeviceCfg { bar, offset, size },
        _ => Virtio::Unknown { bar, offset, size },
    })
}
pub fn virtio_decode(d: &[u8], r: &Result<Virtio, VendorSpecificError>) -> bool { *r == virtio(d) }
pub fn ok(d: &[u8], vendor: u16, device: u16) -> bool {
    match data(d) {
        Err(_) => false,
        Ok(x) => !is_virtio(vendor, device) || x.len() >= 13,
    }
}
pub fn decode(d: &[u8], vendor: u16, device: u16, r: &Result<VendorSpecific, VendorSpecificError>) -> bool {
    match (data(d), r) {
        (Err(e), Err(r)) => e == *r,
        (Ok(x), Ok(VendorSpecific::Unspecified(y))) => !is_virtio(vendor, device) && same(x, y),
        (Ok(x), Ok(VendorSpecific::Virtio(y))) => is_virtio(vendor, device) && match virtio(x) { Ok(v) => v == *y, _ => false },
        (Ok(x), Err(e)) => is_virtio(vendor, device) && virtio(x).is_err() && *e == VendorSpecificError::Virtio,
        _ => false,
    }
}

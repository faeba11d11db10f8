use super::super::api::extended_capabilities::device_serial_number::*;
use super::super::{decoded, dw};


pub fn decode<E>(d: &[u8], r: &Result<DeviceSerialNumber, E>) -> bool {
    decoded(d.len() >= 8, || DeviceSerialNumber { lower_dword: dw(d, 0), upper_dword: dw(d, 4) }, r)
}

use super::super::api::capabilities::accelerated_graphics_port::*;
use super::super::{b, decoded, dw, f8, w};

pub fn identifier(x: u16) -> Identifier { Identifier { minor: f8(x, 3, 0), major: f8(x, 7, 4) } }
/// AGPSTAT
pub fn status(x: u32) -> Status {
    Status {
        rq: f8(x, 31, 24),
        isoch_support: b(x, 17),
        reserved: b(x, 16),
        arqsz: f8(x, 15, 13),
        cal_cycle: cal_cycle(f8(x, 12, 10)),
        sba: b(x, 9),
        ita_coh: b(x, 8),
        gart64b: b(x, 7),
        htrans: b(x, 6),
        over4g: b(x, 5),
        fw: b(x, 4),
        agp_3_0_mode: b(x, 3),
        rate: data_rate_support(f8(x, 2, 0)),
    }
}
pub fn cal_cycle(x: u8) -> CalCycle {
    match x {
        0 => CalCycle::Period4ms,
        1 => CalCycle::Period16ms,
        2 => CalCycle::Period64ms,
        3 => CalCycle::Period256ms,
        7 => CalCycle::CalibrationCycleNotNeeded,
        v => CalCycle::Reserved(v),
    }
}
pub fn data_rate_support(x: u8) -> DataRateSupport {
    match x {
        1 => DataRateSupport::Speed4x,
        2 => DataRateSupport::Speed8x,
        3 => DataRateSupport::Speed4xAnd8x,
        v => DataRateSupport::Reserved(v),
    }
}
/// AGPCMD
pub fn command(x: u32) -> Command {
    Command {
        prq: f8(x, 31, 24),
        parqsz: f8(x, 15, 13),
        pcal_cycle: cal_cycle(f8(x, 12, 10)),
        sba_enable: b(x, 9),
        agp_enable: b(x, 8),
        gart64b: b(x, 7),
        over4g: b(x, 5),
        fw_enable: b(x, 4),
        drate: data_rate_enabled(f8(x, 2, 0)),
    }
}
pub fn data_rate_enabled(x: u8) -> DataRateEnabled {
    match x {
        1 => DataRateEnabled::Speed4x,
        2 => DataRateEnabled::Speed8x,
        v => DataRateEnabled::Reserved(v),
    }
}
/// NISTAT
pub fn isochronous_status(x: u32) -> IsochronousStatus {
    IsochronousStatus {
        maxbw: f8(x, 23, 16),
        isoch_n: f8(x, 15, 8),
        isoch_y: IsochY(f8(x, 7, 6)),
        isoch_l: f8(x, 5, 3),
        isoch_error_code: IsochErrorCode(f8(x, 1, 0)),
    }
}
/// AGPCTRL
pub fn control(x: u32) -> Control { Control { cal_cycle_dis: b(x, 9), aperenb: b(x, 8), gtlben: b(x, 7) } }
/// NICMD
pub fn isochronous_command(x: u16) -> IsochronousCommand { IsochronousCommand { pisoch_n: f8(x, 15, 8), pisoch_y: f8(x, 7, 6) } }
/// Identifier, status and command are required; each later register is there when its bytes are.
pub fn ok(d: &[u8]) -> bool { d.len() >= 10 }
pub fn value(d: &[u8]) -> AcceleratedGraphicsPort {
    let n = d.len();
    let st = status(dw(d, 2));
    let isoch = b(dw(d, 2), 17);
    AcceleratedGraphicsPort {
        identifier: identifier(w(d, 0)),
        status: st,
        command: command(dw(d, 6)),
        isochronous_status: if isoch && n >= 14 { Some(isochronous_status(dw(d, 10))) } else { None },
        control: if n >= 18 { Some(control(dw(d, 14))) } else { None },
        aperture_size: if n >= 20 { Some(ApertureSize(w(d, 18))) } else { None },
        enabled_aperture_page_size: if n >= 22 { Some(EnabledAperturePageSize(w(d, 20))) } else { None },
        gart_pointer: if n >= 26 {
            Some(GartPointer { gartlo: dw(d, 22), garthi: if n >= 30 { dw(d, 26) } else { 0 } })
        } else {
            None
        },
        isochronous_command: if isoch && n >= 32 { Some(isochronous_command(w(d, 30))) } else { None },
    }
}
pub fn decode<E>(d: &[u8], r: &Result<AcceleratedGraphicsPort, E>) -> bool { decoded(ok(d), || value(d), r) }

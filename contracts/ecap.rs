// Extended capabilities. A decoder gets the bytes that follow the four-byte extended capability
// header, or (where noted) the bytes from that header on.
pub mod acs;
pub mod ats;
pub mod ari;
pub mod pri;
pub mod pasid;
pub mod sriov;
pub mod l1pm;
pub mod ltr;
pub mod ptm;
pub mod power_budget;
pub mod dpa;
pub mod rtr;
pub mod aer;
pub mod vc;
pub mod mfvc;
pub mod vsec;
pub mod cxl;
pub mod dvsec;
pub mod rc_link;
pub mod rc_internal_link;
pub mod rcec;
pub mod rcrb;
pub mod dpc;
pub mod frs;
pub mod lnr;
pub mod tph;
pub mod spcie;
pub mod multicast;
pub mod pmux;
pub mod mphy;
pub mod rebar;
pub mod cac;
pub mod dsn;

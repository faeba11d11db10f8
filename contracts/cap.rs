// Capabilities of the 256-byte configuration space. A decoder gets the bytes that follow the
// two-byte capability header; offsets below are relative to that point (register offset - 2).
pub mod pm;
pub mod msi;
pub mod msi_x;
pub mod agp;
pub mod small;
pub mod pci_x;
pub mod fpb;
pub mod ea;
pub mod vendor;
pub mod ht;
pub mod pcie;

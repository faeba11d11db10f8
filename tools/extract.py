"""Builds the walk crate in a scratch directory.

/repo/src/capabilities.rs and /repo/src/extended_capabilities.rs are copied byte for byte and compiled as they
are. The module files they declare (`pub mod x;`) are not: each decoder module is replaced by a stand-in
(TABLE) with the same type, error and decoder names, whose decoder returns a token naming itself and the bytes
(and header) it was given, successfully or not as the harness chooses. A declared module that has no stand-in
is copied from /repo. `crate::header` and the offsets are those of the real pcics crate."""
import os, re, shutil

REPO = "/repo/src"
# module: [(type, has lifetime, error type or None for the common data error, constructor)]
CAP = {
    "power_management_interface": [("PowerManagementInterface", False, None)],
    "accelerated_graphics_port": [("AcceleratedGraphicsPort", False, None)],
    "vital_product_data": [("VitalProductData", False, None)],
    "slot_identification": [("SlotIdentification", False, None)],
    "message_signaled_interrups": [("MessageSignaledInterrups", False, "MessageSignaledInterrupsError")],
    "pci_x": [("PciX", False, "PciXError"), ("PciXBridge", False, "PciXBridgeError")],
    "hypertransport": [("Hypertransport", False, "HypertransportError")],
    "vendor_specific": [("VendorSpecific", True, "VendorSpecificError")],
    "debug_port": [("DebugPort", False, None)],
    "bridge_subsystem_vendor_id": [("BridgeSubsystemVendorId", False, None)],
    "pci_express": [("PciExpress", False, "PciExpressError")],
    "msi_x": [("MsiX", False, None)],
    "sata": [("Sata", False, None)],
    "advanced_features": [("AdvancedFeatures", False, None)],
    "enhanced_allocation": [("EnhancedAllocation", True, "EnhancedAllocationError")],
    "flattening_portal_bridge": [("FlatteningPortalBridge", False, None)],
}
TRY_NEW = ("VendorSpecific", "EnhancedAllocation")
ECAP = {
    "advanced_error_reporting": [("AdvancedErrorReporting", False, "AdvancedErrorReportingError")],
    "virtual_channel": [("VirtualChannel", True, None)],
    "device_serial_number": [("DeviceSerialNumber", False, None)],
    "power_budgeting": [("PowerBudgeting", False, None)],
    "root_complex_link_declaration": [("RootComplexLinkDeclaration", True, "RootComplexLinkDeclarationError")],
    "root_complex_internal_link_control": [("RootComplexInternalLinkControl", False, None)],
    "root_complex_event_collector_endpoint_association": [("RootComplexEventCollectorEndpointAssociation", False, None)],
    "multifunction_virtual_channel": [("MultifunctionVirtualChannel", True, "MultifunctionVirtualChannelError")],
    "root_complex_register_block_header": [("RootComplexRegisterBlockHeader", False, None)],
    "vendor_specific_extended_capability": [("VendorSpecificExtendedCapability", True, None)],
    "configuration_access_correlation": [("ConfigurationAccessCorrelation", False, None)],
    "access_control_services": [("AccessControlServices", True, None)],
    "alternative_routing_id_interpolation": [("AlternativeRoutingIdInterpretation", False, None)],
    "address_translation_services": [("AddressTranslationServices", False, None)],
    "single_root_io_virtualization": [("SingleRootIoVirtualization", False, None)],
    "multicast": [("Multicast", False, None)],
    "page_request_interface": [("PageRequestInterface", False, None)],
    "resizable_bar": [("ResizableBar", True, "ResizableBarError")],
    "dynamic_power_allocation": [("DynamicPowerAllocation", True, "DynamicPowerAllocationError")],
    "tph_requester": [("TphRequester", True, None)],
    "latency_tolerance_reporting": [("LatencyToleranceReporting", False, None)],
    "secondary_pci_express": [("SecondaryPciExpress", True, None)],
    "protocol_multiplexing": [("ProtocolMultiplexing", True, "ProtocolMultiplexingError")],
    "process_address_space_id": [("ProcessAddressSpaceId", False, None)],
    "ln_requester": [("LnRequester", False, None)],
    "downstream_port_containment": [("DownstreamPortContainment", False, "DownstreamPortContainmentError")],
    "l1_pm_substates": [("L1PmSubstates", False, None)],
    "precision_time_measurement": [("PrecisionTimeMeasurement", False, None)],
    "pci_express_over_m_phy": [("PciExpressOverMphy", False, None)],
    "frs_queuing": [("FrsQueuing", False, None)],
    "readiness_time_reporting": [("ReadinessTimeReporting", False, None)],
    "designated_vendor_specific_extended_capability": [
        ("DesignatedVendorSpecificExtendedCapability", True, "DesignatedVendorSpecificExtendedCapabilityError")],
}
MORE = {  # modules with an error type of their own that only the error enum names
    "single_root_io_virtualization": ["SingleRootIoVirtualizationError"],
}


def stand_in(types, common, first_tag, extra):
    o = ["use crate::token::called;", "#[allow(unused_imports)] use snafu::Snafu;"]
    for k, (t, lt, err) in enumerate(types):
        tag, g = first_tag + k, "<'a>" if lt else ""
        o.append(f"#[derive(Debug, Clone, PartialEq, Eq)]\npub struct {t}{g}" + ("(core::marker::PhantomData<&'a [u8]>);" if lt else ";"))
        o.append(f"impl{g} crate::token::Decoder for {t}{g} {{ const TAG: u16 = {tag}; }}")
        e = err or f"super::{common}"
        bad = err or f"super::{common} {{ name: \"\", size: 0 }}"
        good = "Self(core::marker::PhantomData)" if lt else "Self"
        if t in TRY_NEW:
            o.append(f"impl<'a> {t}<'a> {{ pub fn try_new(d: &'a [u8], h: &'a crate::header::Header) -> Result<Self, {e}> {{ "
                     f"if called({tag}, d, h) {{ Ok({good}) }} else {{ Err({bad}) }} }} }}")
        else:
            o.append(f"impl<'a> TryFrom<&'a [u8]> for {t}{g} {{ type Error = {e}; fn try_from(d: &'a [u8]) -> Result<Self, {e}> {{ "
                     f"if called({tag}, d, core::ptr::null()) {{ Ok({good}) }} else {{ Err({bad}) }} }} }}")
        if err:
            o.append(f"#[derive(Snafu, Debug, Clone, PartialEq, Eq)]\n#[snafu(display(\"{err}\"))]\npub struct {err};")
    for e in extra:
        o.append(f"#[derive(Snafu, Debug, Clone, PartialEq, Eq)]\n#[snafu(display(\"{e}\"))]\npub struct {e};")
    return "\n".join(o) + "\n"


def build(template, out):
    src = os.path.join(out, "src")
    shutil.copytree(template, out, ignore=shutil.ignore_patterns("target"))
    for f in ("walk.rs", "util.rs", "native.rs", "dict.rs"):
        shutil.copy(os.path.join(template, "..", "harness", "src", f), src)
    for name, table, common, tag in (("capabilities", CAP, "CapabilityDataError", 1),
                                     ("extended_capabilities", ECAP, "ExtendedCapabilityDataError", 101)):
        shutil.copy(os.path.join(REPO, name + ".rs"), src)
        os.makedirs(os.path.join(src, name))
        text = open(os.path.join(REPO, name + ".rs")).read()
        for m in re.findall(r"^\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", text, re.M):
            if m in table:
                with open(os.path.join(src, name, m + ".rs"), "w") as f:
                    f.write(stand_in(table[m], common, tag, MORE.get(m, [])))
                tag += 2
            else:
                for cand in (m + ".rs", m):
                    p = os.path.join(REPO, name, cand)
                    if os.path.isdir(p):
                        shutil.copytree(p, os.path.join(src, name, cand))
                    elif os.path.exists(p):
                        shutil.copy(p, os.path.join(src, name, cand))

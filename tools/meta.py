#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.json (not run by any check)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, C, E = "src/header", "src/capabilities", "src/extended_capabilities"
INPUTS = "every content and every length of the bytes handed to the decoder"
NOTE = ("Every obligation (no bound on slice length or contents) is discharged by Kani/CBMC on the compiled code of /repo. "
        "Trusted: Kani's translation, CBMC, CaDiCaL, the specification functions in contracts/ and the harness text.")

IND = (" Iterators are proved by induction: the state they start in, and for every state one step (hook cfg(pcics_states)), "
       "for any number of items; slices there up to 4 GiB. Where the hook does not compile, unrolled (bounded) proofs stand in and the evidence says so.")

P = []


def p(id, title, statement, over, why, files, mech, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, note=note, na=na))


TESTS = "The tests decode a few recorded devices and a few hand-made patterns; a wrong bit, table entry or bound on any other value goes unnoticed. "

p("C01", "Decoding never panics",
  "No call of the public decoding API panics, overflows, divides by zero or reads outside its input: whatever the bytes and their length, each decoder, and each iterator and accessor of a decoded value, returns.",
  INPUTS, "The tests reach well-formed dumps only; a panic hides behind a particular length, count or offset field.",
  [f"{H}.rs", f"{C}.rs", f"{E}.rs"], [("every slice access is guarded by a length check or a checked split", "all decoders")],
  note=" Iterators: the first items after decoding, and one more item from every state (hook cfg(pcics_states)).")
p("C02", "Common header registers decode bit-exactly",
  "A header decoded from 64 or more bytes holds, for every byte content, exactly the vendor and device id, command and status flags, revision, class code, cache line size, latency timer, multi-function flag, BIST, capabilities pointer, interrupt line and pin found at the standard offsets and bit positions. Fewer than 64 bytes give an error, never a header.",
  INPUTS, TESTS + "The 64 header bytes have 2^512 contents.",
  [f"{H}.rs", f"{H}/command.rs", f"{H}/status.rs"], [("Header::from, Command::from, Status::from", f"{H}.rs")])
p("C03", "Header layout follows the header type",
  "The seven low bits of the header type select the type 0, bridge or CardBus layout (any other value is kept as reserved), and every register and address window of that layout is decoded from its own offset with its own width: bus numbers, I/O, memory and prefetchable windows with their addressing kind, expansion ROM, bridge control, secondary status, subsystem ids and the CardBus windows.",
  INPUTS, TESTS + "Window decoding depends on combinations of type bits, bases and limits.",
  [f"{H}.rs", f"{H}/bridge_control.rs", f"{H}/cardbus_bridge_control.rs"], [("HeaderType decoding, BridgeIoAddressRange::new, BridgePrefetchableMemory::new", f"{H}.rs")])
p("C04", "Base address registers: kinds, pairs and regions",
  "Iterating base address registers yields exactly the implemented ones in order, each with its region number, kind, prefetchability and address, a 64-bit one consuming the following register. Collecting the yielded items gives registers that decode to the same items; collecting any items never panics.",
  "all 2^192 register contents of the 6-, 2- and 1-register files; for collection also any two items", TESTS,
  [f"{H}/bar.rs"], [("BaseAddresses iterator, FromIterator for register arrays", f"{H}/bar.rs")])
p("C05", "Capability list walk",
  "Walking the capability list visits exactly the chain that starts at the header's capabilities pointer and follows the next pointers inside the device dependent region, each entry reported with its own offset and decoded, by the decoder of its capability id, from its own bytes. The walk ends at a null pointer, at the first pointer or header outside the region (reported once as an error), and after a bounded number of entries when the chain loops.",
  "every content and length of the device dependent region and every header", "The tests walk a handful of well-formed lists; malformed, looping and truncated chains are not sampled.",
  [f"{C}.rs"], [("Capabilities iterator, parse_cap", f"{C}.rs")], note=" The verified text is the iterators' source file itself, copied byte for byte on every run; the decoder modules below it are replaced by stand-ins that succeed or fail arbitrarily and record which was called with which bytes (the decoders' own contracts are C08 to C22). The step is proved for every iterator state (hook cfg(pcics_states)), so it holds by induction for walks of every length.")
p("C06", "Extended capability list walk",
  "Walking the extended capability list visits exactly the chain that starts at offset 100h and follows the 12-bit next offsets, each entry reported with its own offset, id and version and decoded, by the decoder of its id, from its own bytes. The walk ends at a zero next offset, silently at an all-zero header, at an offset below 100h or a header that is not completely there (each reported once as an error), and after a bounded number of entries when the chain loops.",
  "every content and length of the extended configuration space", "As for the capability list; additionally the tests contain few chains at all.",
  [f"{E}.rs"], [("ExtendedCapabilities iterator", f"{E}.rs")], note=" The verified text is the iterators' source file itself, copied byte for byte on every run; the decoder modules below it are replaced by stand-ins that succeed or fail arbitrarily and record which was called with which bytes (the decoders' own contracts are C08 to C22). The step is proved for every iterator state (hook cfg(pcics_states)), so it holds by induction for walks of every length.")
p("C07", "Decoders fail exactly when bytes are missing",
  "Every capability and extended capability decoder succeeds exactly when the input holds all bytes its structure (as selected by the structure's own size, count and feature fields) mandates, and returns an error for any shorter input; surplus bytes never matter.",
  INPUTS, "The tests decode complete structures; no test tries every truncation.", [f"{C}.rs", f"{E}.rs"], [("TryFrom implementations", "all decoders")])
p("C08", "Power management capability decodes bit-exactly",
  "Every field of the power management capability (capabilities word, control/status word, bridge extensions, data) equals the bits the PCI power management specification assigns to it, for every content; the data view is present exactly when the data register is non-zero and carries the selected meaning and scale.",
  INPUTS, TESTS, [f"{C}/power_management_interface.rs"], [("TryFrom<&[u8]>, register conversions, data()", f"{C}/power_management_interface.rs")])
p("C09", "MSI and MSI-X decode bit-exactly",
  "The MSI message address, data, mask and pending registers are read from the offsets that the 64-bit and per-vector-masking bits select (absent registers are absent, not zero), vector counts are powers of two of their fields, and the MSI-X table size, table and pending-bit offsets and their BAR indicators equal their bit fields, for every content.",
  INPUTS, TESTS + "MSI has four layouts.", [f"{C}/message_signaled_interrups.rs", f"{C}/msi_x.rs"], [("TryFrom<&[u8]>", f"{C}/message_signaled_interrups.rs, {C}/msi_x.rs")])
p("C10", "AGP capability decodes bit-exactly",
  "For every content, every field of the AGP capability (identifier, status, command, and the AGP 3.0 isochronous, control and size registers present exactly for the revisions that define them) equals its bits in the AGP specification.",
  INPUTS, TESTS, [f"{C}/accelerated_graphics_port.rs"], [("TryFrom<&[u8]>, register conversions", f"{C}/accelerated_graphics_port.rs")])
p("C11", "PCI-X capability decodes bit-exactly",
  "For every content, every field of the PCI-X type 0 and bridge capabilities (command, status, secondary status, split transaction control, ECC registers) equals its bits in the PCI-X specification, ECC registers are present exactly for the versions that define them, and the derived byte counts, split-transaction counts and read sizes equal the tables of the specification.",
  INPUTS, TESTS, [f"{C}/pci_x.rs"], [("PciX, PciXBridge decoders and value()/bytes()/adqs()", f"{C}/pci_x.rs")])
p("C12", "HyperTransport capability decodes bit-exactly",
  "The capability type bits select the HyperTransport block kind, and for every content each field of the host, slave, interrupt, revision, MSI-mapping, address-mapping and other blocks equals its bits in the HyperTransport specification, link frequencies included.",
  INPUTS, TESTS, [f"{C}/hypertransport.rs"], [("TryFrom<&[u8]>, register conversions", f"{C}/hypertransport.rs")])
p("C13", "PCI Express capability decodes bit-exactly",
  "For every content, each field of the PCI Express capability's device, link, slot, root, device 2, link 2 and slot 2 registers equals its bits in the PCI Express specification, a register block being present exactly when the device/port type and capability version (and input length) provide it; power limits, speeds, widths and timeouts equal the tables of the specification.",
  INPUTS, TESTS + "Which blocks exist depends on 16 port types, the slot bit and the version.", [f"{C}/pci_express.rs"], [("TryFrom<&[u8]>, register conversions", f"{C}/pci_express.rs")])
p("C14", "Enhanced Allocation and FPB decode bit-exactly",
  "Enhanced Allocation yields at most the declared number of entries, each decoded from where the previous entry's size field ends, with 32/64-bit base and maximum offset and properties bit-exact, and ends at the first entry that is not completely there; bridges additionally report the fixed bus numbers. Every field of the Flattening Portal Bridge registers equals its bits in the PCI Express specification.",
  INPUTS, TESTS, [f"{C}/enhanced_allocation.rs", f"{C}/flattening_portal_bridge.rs"], [("EnhancedAllocationEntries iterator; FPB register conversions", f"{C}/enhanced_allocation.rs")], note=IND)
p("C15", "Small and vendor capabilities decode bit-exactly",
  "For every content, each field of the VPD, slot identification, bridge subsystem id, debug port, SATA and Advanced Features capabilities equals its bits; a vendor specific capability exposes exactly the bytes its length field covers, and is decoded as virtio exactly for virtio devices, with all virtio fields bit-exact.",
  INPUTS, TESTS, [f"{C}/vital_product_data.rs", f"{C}/slot_identification.rs", f"{C}/bridge_subsystem_vendor_id.rs", f"{C}/debug_port.rs", f"{C}/sata.rs", f"{C}/advanced_features.rs", f"{C}/vendor_specific.rs"], [("TryFrom<&[u8]> / try_new", f"{C}/*.rs")])
p("C16", "Advanced Error Reporting decodes bit-exactly",
  "For every content, each flag of the uncorrectable and correctable error registers (status, mask, severity), the capabilities and control register, the header log, the root error command, status and source ids, and the TLP prefix log equals its bits; the root registers are present exactly when their bytes are, the prefix log exactly when the capability announces it, and an announced log whose bytes are missing is an error.",
  INPUTS, TESTS, [f"{E}/advanced_error_reporting.rs"], [("TryFrom<&[u8]>, register conversions", f"{E}/advanced_error_reporting.rs")])
p("C17", "Virtual Channel capabilities: registers, channels and arbitration tables",
  "For every content, the port and resource registers of the Virtual Channel and Multi-Function Virtual Channel capabilities equal their bits; iterating the channels yields channel 0 and the announced number of further ones, in order, as far as complete ones are there; an arbitration table is the bytes at its announced offset, as long as scheme and entry size say, split into its entries in order, and absent where it is not announced or not complete.",
  INPUTS, TESTS + "Offsets, counts, schemes and entry sizes combine freely.", [f"{E}/virtual_channel.rs", f"{E}/multifunction_virtual_channel.rs"],
  [("decoders, ExtendedVirtualChannels, VcArbitrationTable, PortArbitrationTable and FunctionArbitrationTable iterators", f"{E}/virtual_channel.rs, {E}/multifunction_virtual_channel.rs")],
  note=IND)
p("C18", "Access control, translation and virtualization capabilities decode bit-exactly",
  "For every content, each field of the ACS, ATS, ARI, Page Request, PASID and SR-IOV extended capabilities equals its bits; the ACS egress control vector has exactly the announced number of bits in order (a size of 0 meaning 256 when egress control is supported) and is there completely or not at all; the SR-IOV VF BARs are the six registers of the capability.",
  INPUTS, TESTS, [f"{E}/access_control_services.rs", f"{E}/address_translation_services.rs", f"{E}/alternative_routing_id_interpolation.rs", f"{E}/page_request_interface.rs", f"{E}/process_address_space_id.rs", f"{E}/single_root_io_virtualization.rs"],
  [("TryFrom<&[u8]>, register conversions, egress_control_vectors()", f"{E}/*.rs")],
  note=IND)
p("C19", "Power and timing capabilities decode bit-exactly",
  "For every content, each field of the L1 PM Substates, LTR, PTM, Power Budgeting, Dynamic Power Allocation and Readiness Time Reporting extended capabilities equals its bits, and the derived times, latencies and multipliers equal value times scale as specified, reserved scales included.",
  INPUTS, TESTS, [f"{E}/l1_pm_substates.rs", f"{E}/latency_tolerance_reporting.rs", f"{E}/precision_time_measurement.rs", f"{E}/power_budgeting.rs", f"{E}/dynamic_power_allocation.rs", f"{E}/readiness_time_reporting.rs"],
  [("TryFrom<&[u8]>, register conversions, value()/actual_time_value()/multiplier()", f"{E}/*.rs")])
p("C20", "Vendor specific extended capabilities and CXL decode bit-exactly",
  "A vendor specific extended capability (VSEC, DVSEC) reports its id, revision and length from its header and exposes exactly the bytes its length covers; a DVSEC is decoded as the CXL device structure exactly for the CXL vendor id, DVSEC id 0 and a known revision, with every capability, control, status, lock and range register of it bit-exact; other revisions and vendors keep the raw bytes.",
  INPUTS, TESTS + "Whether and how a DVSEC is decoded depends on vendor, id, revision and length together.",
  [f"{E}/vendor_specific_extended_capability.rs", f"{E}/designated_vendor_specific_extended_capability.rs", f"{E}/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs"],
  [("TryFrom<&[u8]>, register conversions", f"{E}/designated_vendor_specific_extended_capability.rs")])
p("C21", "Root complex capabilities decode bit-exactly",
  "For every content, each field of the Root Complex Link Declaration, Internal Link Control, Event Collector Endpoint Association and RCRB Header capabilities equals its bits; the link entries are those the header counts, in order, each decoded from its own 16 bytes with the address or configuration-space form its link type selects, and end at the first one that is not completely there.",
  INPUTS, TESTS, [f"{E}/root_complex_link_declaration.rs", f"{E}/root_complex_internal_link_control.rs", f"{E}/root_complex_event_collector_endpoint_association.rs", f"{E}/root_complex_register_block_header.rs"],
  [("TryFrom<&[u8]>, LinkEntries iterator", f"{E}/root_complex_link_declaration.rs")],
  note=IND)
p("C22", "Containment, messaging and lane capabilities decode bit-exactly",
  "For every content, each field of the DPC, FRS Queuing, LN Requester, TPH Requester, Secondary PCI Express, Multicast, Protocol Multiplexing, M-PCIe, Resizable BAR, CAC and Device Serial Number extended capabilities equals its bits; optional parts (RP PIO registers and logs, ST table, lane equalization entries, protocol entries, BAR entries) are present exactly when announced and readable, and hold their entries in order.",
  INPUTS, TESTS + "Optional parts depend on counts, sizes and link widths.",
  [f"{E}/downstream_port_containment.rs", f"{E}/frs_queuing.rs", f"{E}/ln_requester.rs", f"{E}/tph_requester.rs", f"{E}/secondary_pci_express.rs", f"{E}/multicast.rs", f"{E}/protocol_multiplexing.rs", f"{E}/mpcie.rs", f"{E}/resizable_bar.rs", f"{E}/configuration_access_correlation.rs", f"{E}/device_serial_number.rs"],
  [("TryFrom<&[u8]>, register conversions, entry iterators", f"{E}/*.rs")],
  note=IND)
p("C23", "Encoding is the inverse of decoding",
  "Converting a decoded field or register back to its raw form gives the raw value it was decoded from (with only the bits the type does not represent cleared), for every raw value.",
  "every raw value of every type with a conversion back to an integer or register", "The tests round-trip few values of few types.",
  [f"{H}.rs", f"{C}/pci_express.rs", f"{E}/l1_pm_substates.rs"], [("From<T> for integer implementations", "header, capabilities, extended_capabilities")])


def main():
    props = json.load(open(os.path.join(V, "props.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            if x["id"] not in props and not x["na"]:
                continue
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": ["inputs"], "text": x["over"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                            "observe_at": ["return values of the public decoding functions"],
                            "hook_needed": "cfg(pcics_contracts): in-place function contracts"}}) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.split("\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
         "hooks": {"guard": "cfg(pcics_contracts) and cfg(pcics_states)",
                   "enable": "RUSTFLAGS='--cfg pcics_contracts' PCICS_CONTRACTS=<dir of /verif/contracts> cargo kani -Z function-contracts",
                   "source_commits": [l.split()[0] for l in log if " hook:" in l]},
         "checks": [], "not_applicable": []}
    for x in P:
        if x["na"]:
            m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
        elif x["id"] in props:
            m["checks"].append({
                "property": x["id"], "quick_cmd": f"python3 check.py {x['id']}", "thorough_cmd": f"python3 check.py {x['id']} --tier thorough",
                "technique": "contract-based deductive verification (Kani function contracts on the real code, CBMC back end)",
                "level": "proof", "level_note": (NOTE + " " + x["note"]).strip()})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()

"""writes properties.jsonl (kept as a generator so that the statements stay in one readable place)"""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


C = 'cocotbext/pcie/core/'
p('P01', 'TLP headers and payloads survive packing and are laid out as PCIe defines',
  'For every memory, IO, configuration, atomic and completion packet whose fields are in range, packing and unpacking '
  'returns a packet with exactly the same fields and payload. Each field sits at the bit position the PCIe base '
  'specification gives it, including 10-bit tags, the three attribute bits, the 1024-DW and 4096-byte encodings as '
  'zero, 3-DW versus 4-DW headers and completer/requester ID placement.',
  ['inputs'], 'all packet types x all field values (2^100+ headers), all payload lengths',
  'Tests pack and unpack two or three hand-made packets; a field that overlaps another one, or is lost for one packet '
  'type only, shows up only for particular values.',
  [C + 'tlp.py'], [('TLP header pack/unpack', C + 'tlp.py Tlp.pack_header, Tlp.unpack_header, Tlp.pack, Tlp.unpack')])
p('P02', 'DLLPs survive packing and a corrupted DLLP never passes the CRC check',
  'Every data link packet (ACK/NAK, power management, feature, flow control for each VC and credit type) round-trips '
  'through its packed form with each field at its PCIe position. The CRC-protected form is accepted unmodified, and '
  'any single-bit, double-bit or up-to-16-bit burst error in it, or a wrong length, is rejected.',
  ['inputs', 'fault_sequences'], 'all DLLP contents x all error patterns of the stated classes',
  'Tests check a handful of fixed DLLPs; CRC strength is a statement about all 2^32 contents and all error patterns.',
  [C + 'dllp.py'], [('DLLP pack/unpack', C + 'dllp.py Dllp.pack, Dllp.unpack'), ('CRC16', C + 'dllp.py crc16, '
                    'Dllp.pack_crc, Dllp.unpack_crc')])
p('P03', 'Byte enables and DW address/length describe exactly the requested bytes',
  'For every byte address and byte length, the DW address, DW length and first/last byte enables computed for a '
  'request enable exactly the requested bytes and no others, and the attached payload carries each byte in its lane. '
  'The byte count, first-byte offset and completion lower address derived back from such a request equal the original '
  'byte length and address.',
  ['inputs'], 'all 64-bit byte addresses x all lengths (1..4096 and 0)',
  'Tests use aligned or small transfers; the corner cases are sums of alignment, length and single-DW overlap.',
  [C + 'tlp.py'], [('byte-enable arithmetic', C + 'tlp.py Tlp.set_addr_be, set_addr_be_data, get_first_be_offset, '
                    'get_last_be_offset, get_be_byte_count, get_lower_address')])
p('P04', 'Completions carry the requester identity, and copies of a packet lose nothing',
  'A completion built for a request always carries that request\'s requester ID, tag, traffic class and attributes '
  'together with the given completer ID and status, and has a payload type exactly when data is asked for. A copy of '
  'a packet equals the original in every field, compares equal to it, and shares no payload storage with it; packets '
  'that differ in any header field compare unequal.',
  ['inputs'], 'all packets, all completion statuses',
  'Lost fields are visible only when the field is non-default, which the tests rarely use (TH, LN, TD, EP, IDO).',
  [C + 'tlp.py', C + 'dllp.py'], [('completion constructors', C + 'tlp.py Tlp.create_completion_for_tlp and variants'),
                     ('copy and equality', C + 'tlp.py Tlp.__init__, Tlp.__eq__; ' + C + 'dllp.py Dllp.__init__, __eq__')])
p('P05', 'Malformed packets are flagged and well-formed ones are not',
  'The packet validity check accepts every well-formed packet and rejects one whose payload does not match its length '
  'field, whose memory request crosses a 4 KB boundary, whose configuration or IO request is not a single DW with last '
  'byte enables clear, whose completion data exceeds its byte count, or whose reserved length field is set. '
  'Packet classification (posted/non-posted/completion, header size, data credits) agrees with the packet type.',
  ['inputs'], 'all packet types and field values',
  'Every packet in the tests is well formed, so a check that never rejects passes all of them.',
  [C + 'tlp.py'], [('validity check', C + 'tlp.py Tlp.check'), ('classification', C + 'tlp.py get_fc_type, is_posted, '
                    'get_header_size, get_data_credits')])
p('P06', 'No packet is sent without credits, and credits are returned exactly once',
  'A port sends a packet only after its peer has advertised enough header and data credits of that packet\'s type, for '
  'every history of advertisements, with counters wrapping; infinite credits never block. At the receiver each '
  'accepted packet uses its credits once and each credit is handed back at most once, by the first release only, so '
  'advertised minus outstanding credits stay constant; flow-control initialisation advances only on the DLLPs PCIe '
  'prescribes.',
  ['histories', 'inputs', 'schedules'], 'all credit counter states (including wrap-around), all DLLP sequences, packet '
  'sizes and interleavings at await points',
  'Simulations end long before 12/16-bit counters wrap and rarely run a credit type dry.',
  [C + 'port.py'], [('credit gate', C + 'port.py FcChannelState.tx_tlp_fc_gate, tx_has_credit, tx_consume_fc'),
                    ('receive accounting', C + 'port.py rx_process_tlp_fc, rx_release_fc_token, rx_release_fc'),
                    ('init state machine', C + 'port.py handle_fc_dllp'), ('update DLLPs', C + 'port.py Port._run_transmit')],
  [('credit counters', 'limit/consumed at the transmitter, allocated/received at the receiver, modulo 2^n')])
p('P07', 'A link delivers packets once, in order, and acknowledges exactly those',
  'A receiving port passes a packet on only when it carries the next expected sequence number, so over any sequence '
  'of arrivals packets are delivered in order with none repeated; duplicates are discarded and re-acknowledged and '
  'gaps cause a NAK. The transmitting port numbers packets consecutively modulo 4096, keeps each until it is '
  'acknowledged, releases exactly the acknowledged ones, and ignores acknowledgements outside the window.',
  ['histories', 'inputs'], 'all 12-bit sequence states, all arriving sequence numbers and ACK/NAK values',
  'Simulated links never lose or duplicate, and tests send far fewer than 4096 packets, so wrap-around and the reject '
  'paths are not reached.',
  [C + 'port.py'], [('receive sequence check', C + 'port.py Port.ext_recv'), ('ACK processing', C + 'port.py '
                    'Port.handle_dllp'), ('transmit numbering', C + 'port.py Port._run_transmit')],
  [('sequence counters', 'next transmit, last acknowledged, next expected, all modulo 4096')])
p('P08', 'An address is claimed by exactly the BAR whose window contains it',
  'For every arrangement of BARs and every address, memory and IO requests are claimed by a BAR exactly when the address '
  'lies inside that BAR\'s window (32-bit, 64-bit and IO, each only for its own request type), and the offset handed '
  'to the handler is the address minus the window base. Unimplemented BARs never match.',
  ['configurations', 'inputs'], 'all BAR layouts (sizes, kinds, positions, programmed values) x all 64-bit addresses',
  'Tests program one or two layouts at the addresses enumeration happens to choose.',
  [C + 'function.py', C + 'endpoint.py'], [('BAR match', C + 'function.py Function.match_bar, match_tlp')])
p('P09', 'BARs size, program and read back as the PCI protocol requires',
  'After configuring a BAR with a size, writing all ones and reading back gives a mask whose size is the requested '
  'size rounded up to a power of two, with correct type bits, for 32-bit, 64-bit, prefetchable, IO and expansion ROM '
  'BARs of both header types. A partial write changes only the enabled bytes and only the writable address bits; all '
  'other state is unchanged.',
  ['configurations', 'inputs', 'histories'], 'all sizes, BAR indexes, kinds, write values and byte enables',
  'Tests enumerate two layouts with full-DW writes.',
  [C + 'function.py', C + 'endpoint.py', C + 'bridge.py'],
  [('BAR configuration', C + 'function.py Function.configure_bar'), ('BAR registers', C + 'endpoint.py Endpoint.'
    'read_config_register/write_config_register; ' + C + 'bridge.py')])
p('P10', 'Configuration header registers obey their access rules',
  'For every sequence of configuration writes with any byte enables, each header field of endpoint and bridge '
  'functions behaves as read-only, read-write or write-one-to-clear as PCI defines, only enabled bytes change, each '
  'field reads back at its defined position, and no write to one register changes another. Bridge bus numbers and '
  'memory, prefetchable and IO windows read back exactly the writable bits written.',
  ['histories', 'inputs'], 'all register numbers, data values, byte enables and prior states',
  'Enumeration writes whole registers; byte-granular writes and write-one-to-clear bits are barely touched.',
  [C + 'function.py', C + 'endpoint.py', C + 'bridge.py'],
  [('register access', C + 'function.py / ' + C + 'endpoint.py / ' + C + 'bridge.py read_config_register, write_config_register')])
p('P11', 'Capability registers obey their access rules',
  'For the power management, PCI Express, MSI, MSI-X, secondary PCI Express and error reporting capabilities, a configuration write '
  'with any byte enables changes exactly the writable fields in the enabled bytes, write-one-to-clear fields clear only '
  'on a one, read-only fields never change, and every field reads back at its specified position.',
  ['histories', 'inputs'], 'all capability registers, data values, byte enables and prior states',
  'The driver code in the tests touches about five of the fields, always with whole-register writes.',
  [C + 'caps/pcie.py', C + 'caps/msi.py', C + 'caps/pm.py', C + 'caps/aer.py'],
  [('capability registers', C + 'caps/*.py _read_register/_write_register')])
p('P12', 'Capabilities never overlap and the linked list visits each exactly once',
  'However capabilities that fit their configuration region are registered and removed, in any order, at requested or '
  'automatic offsets, a configuration read walk from the capability pointer (or 0x100 for extended ones) visits every registered capability exactly once at its offset and terminates. '
  'No two capabilities share a register, all stay inside their configuration region, and each register access reaches '
  'the capability that owns it.',
  ['histories', 'configurations'], 'all registration/removal sequences, lengths and offsets',
  'The models register the same few capabilities in one fixed order.',
  [C + 'caps/common.py', C + 'function.py'], [('capability list', C + 'caps/common.py PciCapList.register, deregister, '
                                               '_build_linked_list, find_by_reg')])
p('P13', 'Every configuration request gets exactly one correct completion',
  'A function answers every type 0 configuration read or write addressed to it with exactly one successful completion '
  'to the requester (read data is the register\'s value, writes are applied once with the request\'s byte enables), '
  'captures the bus number from it, and answers one addressed elsewhere with exactly one Unsupported Request and no '
  'side effect.',
  ['inputs', 'histories'], 'all register numbers, IDs, byte enables, data',
  'Tests issue configuration requests through one enumeration path with a correct target.',
  [C + 'function.py'], [('config handlers', C + 'function.py Function.handle_config_0_read_tlp, handle_config_0_write_tlp')])
p('P14', 'Bridges, switches and devices route each packet to exactly one destination',
  'Each memory, IO, configuration or completion packet reaching a bridge, switch or multi-function device goes to exactly one place: the port whose bus range '
  'or address window contains its target, the function that matches it, or upstream; a type 1 configuration request is '
  'turned into type 0 exactly on the secondary bus. A packet nobody claims is answered with one Unsupported Request if '
  'it is non-posted and otherwise dropped, its flow-control credits are returned, and it is never answered twice.',
  ['configurations', 'inputs'], 'all bus number and window settings, packet types, targets',
  'The test topologies route well-addressed packets in one or two fixed hierarchies.',
  [C + 'bridge.py', C + 'switch.py', C + 'device.py'],
  [('bridge routing', C + 'bridge.py Bridge.route_downstream_tlp, upstream_recv, downstream_recv'),
   ('device dispatch', C + 'device.py Device.upstream_recv')])
p('P15', 'DMA writes are split legally and put every byte where it belongs',
  'A memory or IO write of any length to any address becomes requests that together enable exactly the addressed '
  'bytes once each, in increasing order, carrying the caller\'s data. Every request respects the maximum payload size, '
  'never crosses a 4 KB boundary, uses a 64-bit header exactly above 4 GB, and bears the function\'s ID, '
  'attributes and traffic class.',
  ['inputs', 'configurations'], 'all addresses, all (unbounded) lengths, all payload size settings',
  'Tests write a few hundred bytes at a few alignments with default settings.',
  [C + 'region.py', C + 'tlp.py'], [('write splitting', C + 'region.py MemoryTlpRegion.write, IoTlpRegion.write')])
p('P16', 'DMA reads are split legally and return exactly the addressed bytes',
  'A memory or IO read of any length from any address becomes requests that cover exactly the addressed bytes once, '
  'each within the maximum read request size and one 4 KB page, and returns exactly those bytes in order for every '
  'legal way the completer splits its completions. An error status or a missing completion raises an error instead of '
  'returning wrong or short data.',
  ['inputs', 'configurations', 'histories'], 'all addresses, lengths, read request sizes and all legal completion splits',
  'Simulated completers split in one way; tests read short aligned buffers.',
  [C + 'region.py', C + 'function.py'], [('read splitting and reassembly', C + 'region.py MemoryTlpRegion.read, '
                                          'IoTlpRegion.read')])
p('P17', 'A memory read is answered by legal completions that return the right bytes',
  'For every memory read the root complex or the memory endpoint accepts, the completions together return the requested '
  'bytes in order with byte count, lower address and length exactly as PCIe prescribes, none exceeding the maximum '
  'payload size, splits only on read completion boundaries, and the last one finishing the request. An unclaimed read, '
  'and one whose access fails in the root complex, gets exactly one error completion.',
  ['inputs', 'configurations'], 'all addresses, lengths 1..1024 DW, byte enables, payload size and RCB settings',
  'Tests read short aligned ranges with one payload size.',
  [C + 'rc.py', C + 'endpoint.py'], [('completion generation', C + 'rc.py RootComplex.handle_mem_read_tlp; ' + C +
                                      'endpoint.py MemoryEndpoint.handle_mem_read_tlp')])
p('P18', 'Memory and IO writes change exactly the enabled bytes',
  'A memory or IO write accepted by the root complex or the memory endpoint stores exactly the bytes whose enables are '
  'set, at their addresses, and touches nothing else, for every combination of byte enables and length; an IO read '
  'returns the enabled bytes. IO requests get exactly one completion, with an error status when unclaimed or failing, '
  'and memory writes get none.',
  ['inputs'], 'all addresses, lengths, first/last byte-enable patterns (including sparse and zero)',
  'Tests write contiguous ranges; sparse, zero and single-DW enable patterns are not exercised.',
  [C + 'rc.py', C + 'endpoint.py'], [('write handling', C + 'rc.py handle_mem_write_tlp, handle_io_write_tlp, '
                                      'handle_io_read_tlp; ' + C + 'endpoint.py')])
p('P19', 'Root complex configuration accesses reach the right registers and bytes',
  'A configuration read or write of any length at any offset from the root complex becomes single-DW requests to the '
  'addressed function that enable exactly the addressed bytes, in order (type 1 requests, which the bridge above the '
  'function turns into type 0), and a read returns exactly those bytes. A failed or unsupported read returns all ones for its bytes. '
  'Accesses relative to a capability of an enumerated function reach that capability.',
  ['inputs'], 'all offsets, lengths, device IDs, completion statuses',
  'Tests use 1, 2 and 4 byte aligned accesses only.',
  [C + 'rc.py'], [('config access splitting', C + 'rc.py RootComplex.config_read, config_write')])
p('P20', 'No two outstanding requests share a tag, and completions reach their request',
  'A tag is handed out only while free and within the enabled tag range, whatever the order of allocations and releases; '
  'when none is free the requester waits, and a release wakes it. Each non-posted operation returns exactly the '
  'completions that arrived for its tag, ends at the first error or the completing one or a timeout, and always gives '
  'its tag back.',
  ['schedules', 'histories'], 'all tag states, allocation/release interleavings and completion sequences',
  'Tests rarely have more than a few requests outstanding, so exhaustion and wrap of the tag pool are not reached.',
  [C + 'function.py', C + 'rc.py'], [('tag allocation', C + 'function.py and ' + C + 'rc.py alloc_tag, release_tag'),
                                     ('operation', 'perform_nonposted_operation, recv_cpl, handle_tlp')])
p('P21', 'Enumeration assigns disjoint, aligned, reachable resources',
  'However many devices and BARs of whatever sizes are found, enumeration gives every BAR a naturally aligned window '
  'of the right kind, no two of which overlap, and every bridge a window that covers exactly the range used by everything '
  'behind it and stays within its parent\'s. Programmed registers decode to the assigned ranges and bus numbers are '
  'unique and nested.',
  ['configurations'], 'all device trees, BAR sizes and kinds',
  'Tests enumerate a few fixed hierarchies.',
  [C + 'pci.py', C + 'rc.py'], [('resource assignment', C + 'pci.py PciBus/PciHostBridge/PciDevice sizing and '
                                 'assignment functions')])
p('P22', 'MSI and MSI-X interrupts reach exactly the vector that was raised',
  'Vector allocation never hands out a message number twice and gives each MSI block the alignment its low bits require, '
  'for every sequence of allocations. Raising vector n writes the message that the root complex maps to '
  'vector n and to no other, once and only while enabled; configuring a function connects each of its vectors to its own.',
  ['histories', 'inputs'], 'all allocation sequences, vector counts, capability settings',
  'Tests allocate once per device with one block size.',
  [C + 'msi.py', C + 'caps/msi.py', C + 'pci.py'], [('vector allocation', C + 'msi.py MsiRegion.alloc_vectors'),
    ('interrupt generation', C + 'caps/msi.py issue_msi_interrupt, issue_msix_interrupt')])
p('P23', 'PCIe IDs and byte-mask updates are encoded exactly',
  'A bus/device/function ID converts to its 16-bit form and back without loss, and out-of-range parts are always '
  'rejected. A masked register update changes exactly the bits selected by both the byte mask and the bit mask, and '
  'alignment rounds up to the next boundary and never further.',
  ['inputs'], 'all IDs, masks and values',
  'Only a few IDs and masks occur in tests, and these helpers sit under every register access.',
  [C + 'utils.py'], [('ID encoding', C + 'utils.py PcieId'), ('masked update', C + 'utils.py byte_mask_update, align')])
X = 'cocotbext/pcie/xilinx/us/'
p('P24', 'Xilinx descriptors carry every packet field to and from the user interface',
  'Packing a packet into the completer-request, completer-completion, requester-request or requester-completion '
  'descriptor and unpacking it again gives the same address, length, byte enables, IDs, tag, attributes, status, byte '
  'count and payload, with each field at the position the product guide gives it.',
  ['inputs'], 'all packets and descriptor contents on the four interfaces',
  'Simulations exercise the few field values that the test designs use.',
  [X + 'tlp.py'], [('descriptor conversion', X + 'tlp.py Tlp_us pack_us_*/unpack_us_*')])
p('P25', 'Intel stream frames carry every packet unchanged',
  'Converting a packet to a Stratix 10 H-tile or P-tile stream frame and back gives an identical packet and payload, '
  'for 3-DW and 4-DW headers with and without data, and framing marks start and end so that consecutive packets are '
  'never merged or truncated.',
  ['inputs'], 'all packets and payload lengths',
  'Simulations use short payloads and a few header forms.',
  ['cocotbext/pcie/intel/s10/interface.py', 'cocotbext/pcie/intel/ptile/interface.py'],
  [('frame conversion', 'S10PcieFrame and PTilePcieFrame from_tlp/to_tlp')])
p('P26', 'Link speed and width settle on the best both sides support',
  'When two ports are connected, both ends report the same speed and width, the minimum of what the two support '
  '(or the only limit given), the connection is symmetric, and a port can be connected only once.',
  ['configurations'], 'all speed/width settings of both ends, connection order',
  'Tests connect a few fixed speeds.',
  [C + 'port.py'], [('negotiation', C + 'port.py SimPort.connect, _connect_int')])
p('P27', 'Setting up a function changes exactly the intended register fields',
  'When a function is discovered, configured, enabled or disabled from the root complex, exactly the intended register '
  'fields change (decode and bus master enables, retry visibility, payload and read request size, extended tags, error '
  'forwarding, MSI and MSI-X enables); all other bits, including pending write-one-to-clear status, are kept. Enabling a '
  'function enables every bridge above it, a payload size never exceeds what the function or the bridge above supports, '
  'and every capability is found at its offset.',
  ['histories', 'configurations'], 'all prior register contents, capability lists, positions in the tree and enable counts',
  'Tests enable a few functions whose registers are in their reset state.',
  [C + 'pci.py'], [('function set-up', C + 'pci.py PciDevice.setup, configure_*, enable_*, set_*, walk_capabilities')])
p('P28', 'Xilinx stream interfaces deliver every frame unchanged',
  'Every frame sent through a requester request, requester completion, completer request or completer completion stream '
  'arrives at the matching sink exactly once and in order, with its data, parity, byte enables, sequence number and '
  'discontinue flag, at every bus width and straddling mode and under any stalls. On the bus, tlast, tkeep and the start '
  'and end marks delimit the frames as the product guides define, and an offered beat stays unchanged until it is taken.',
  ['inputs', 'schedules'], 'all frame contents, frame sequences, arrival times and stall patterns',
  'Simulations use a few frame lengths and one bus width per test bench.',
  [X + 'interface.py'], [('stream sources and sinks', X + 'interface.py RqSource/Sink, RcSource/Sink, CqSource/Sink, CcSource/Sink')])

p('P29', 'Device models connect link and user streams without loss or mix-up',
  'The UltraScale, UltraScale+, Stratix 10 and P-Tile models hand every memory or IO request that one of their functions '
  'claims to the user side exactly once, unchanged, naming that function and BAR; requests nobody claims are completed as '
  'unsupported iff non-posted; non-posted requests wait for the credits the user gives. Configuration requests reach exactly the function they address. Completions for a function '
  'are handed over once, with the error code and end-of-request mark that hold for the request. Every packet of the user is '
  'sent exactly once unless it is to be discarded or its function is not bus master; tags the core manages are distinct and '
  'requests waiting for one are sent when one is free. Receive credits are returned exactly once per packet.',
  ['inputs', 'schedules', 'histories'], 'all packets of each type, both functions, all BAR kinds, credit patterns of the user side',
  'The test benches use one function, client tags and well-formed completions.',
  [X + 'us_model.py', X + 'usp_model.py', 'cocotbext/pcie/intel/s10/s10_model.py', 'cocotbext/pcie/intel/ptile/ptile_model.py'],
  [('device models', X + 'us_model.py UltraScalePcieDevice.upstream_recv, _run_rq_logic, _run_rq_np_queue_logic, _run_cq_logic, '
    '_run_cc_logic, _run_rc_logic, _run_cfg_fc_logic; S10PcieDevice and PTilePcieDevice upstream_recv, _run_rx_logic, _run_tx_logic')])

if __name__ == '__main__':
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(fn, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))

"""Configuration header (P10) and capability registers (P11): access rules and layout.

Register file specification: for every register a layout (field -> bit position, from the PCI/PCIe base specification),
a read-write mask and a write-one-to-clear mask.  The state is arbitrary (all fields symbolic), one configuration write
with arbitrary data and byte enables is performed, and every register of the function is read before and after; by
induction over writes the rules hold for every sequence."""
from vc.reg import contract

M32 = 0xffffffff


def rd(v, f, reg):
    return v.run(f.read_config_register(reg))


def wr(v, f, reg, data, be=0xf):
    v.run(f.write_config_register(reg, data, be))


def be_mask(v, be):
    r = 0
    for k in range(4):
        r = r | v.ite(v.truth(be >> k & 1), 0xff << 8 * k, 0)
    return r


def expected(v, old, data, be, rw, w1c):
    m = be_mask(v, be)
    x = (old & ~(rw & m)) | (data & rw & m)
    return x & ~(w1c & m & data)


def fld(v, o, name, width, tag=''):
    """give a field an arbitrary value; -> value or None if the object has no such field"""
    if not hasattr(o, name):
        return None
    x = v.bits(tag + name, width)
    setattr(o, name, x)
    return x


def layout_value(v, fields, const=0):
    """fields: list of (value, lsb)"""
    r = const
    for x, lsb in fields:
        r = r | x << lsb
    return r


def init(v, o, table, tag=''):
    """table: reg -> (const, [(field, lsb, width)]); -> reg -> expected read value (None if a field does not exist)"""
    out = {}
    for reg, (const, fs) in table.items():
        vals = []
        ok = True
        for name, lsb, w in fs:
            x = fld(v, o, name, w, tag)
            if x is None:
                ok = False
            else:
                vals.append((x, lsb))
        out[reg] = layout_value(v, vals, const) if ok else None
    return out


# ------------------------------------------------------------------------------------------------ P10

COMMON = {
    0: (0, [('vendor_id', 0, 16), ('device_id', 16, 16)]),
    1: (0, [('io_space_enable', 0, 1), ('memory_space_enable', 1, 1), ('bus_master_enable', 2, 1),
            ('parity_error_response_enable', 6, 1), ('serr_enable', 8, 1), ('interrupt_disable', 10, 1),
            ('interrupt_status', 19, 1), ('capabilities_list', 20, 1), ('master_data_parity_error', 24, 1),
            ('signaled_target_abort', 27, 1), ('received_target_abort', 28, 1), ('received_master_abort', 29, 1),
            ('signaled_system_error', 30, 1), ('detected_parity_error', 31, 1)]),
    2: (0, [('revision_id', 0, 8), ('class_code', 8, 24)]),
    3: (0, [('cache_line_size', 0, 8), ('latency_timer', 8, 8), ('header_layout', 16, 7), ('multifunction_device', 23, 1),
            ('bist_completion_code', 24, 4), ('start_bist', 30, 1), ('bist_capable', 31, 1)]),
}
EP = dict(COMMON)
EP.update({11: (0, [('subsystem_vendor_id', 0, 16), ('subsystem_id', 16, 16)]),
           15: (0, [('interrupt_line', 0, 8), ('interrupt_pin', 8, 8)])})
BR = dict(COMMON)
BR.update({6: (0, [('pri_bus_num', 0, 8), ('sec_bus_num', 8, 8), ('sub_bus_num', 16, 8), ('sec_lat_timer', 24, 8)]),
           15: (0, [('interrupt_line', 0, 8), ('interrupt_pin', 8, 8), ('bridge_parity_error_response_enable', 16, 1),
                    ('bridge_serr_enable', 17, 1), ('secondary_bus_reset', 22, 1)])})
SEC_STATUS = [('sec_master_data_parity_error', 24), ('sec_signaled_target_abort', 27), ('sec_received_target_abort', 28),
              ('sec_received_master_abort', 29), ('sec_received_system_error', 30), ('sec_detected_parity_error', 31)]

STATUS = 1 << 24 | 0x1f << 27
RW = {'endpoint': {1: 0x547, 3: 0x400000ff, 12: 0xfffff801, 15: 0xff},
      'bridge': {1: 0x547, 3: 0x400000ff, 6: 0x00ffffff, 7: 0xf0f0, 8: 0xfff0fff0, 9: 0xfff0fff0, 10: M32, 11: M32,
                 12: M32, 14: 0xfffff801, 15: 0x004300ff}}
W1C = {'endpoint': {1: STATUS}, 'bridge': {1: STATUS, 7: STATUS}}


def function(v, hdr):
    """function with every header field arbitrary; -> (function, reg -> expected value)"""
    if hdr == 'bridge':
        f = v.mod('core.bridge').Bridge()
    else:
        f = v.mod('core.endpoint').Endpoint()
    exp = init(v, f, BR if hdr == 'bridge' else EP)
    cp = fld(v, f, 'capabilities_ptr', 8)
    exp[13] = cp
    if hdr == 'bridge':
        iob, iol = v.bits('io_base20', 20) << 12, v.bits('io_limit20', 20) << 12
        mb, ml = v.bits('mem_base12', 12) << 20, v.bits('mem_limit12', 12) << 20
        pb, pl = v.bits('pf_base44', 44) << 20, v.bits('pf_limit44', 44) << 20
        for n, x in (('io_base', iob), ('io_limit', iol | 0xfff), ('mem_base', mb), ('mem_limit', ml | 0xfffff),
                     ('prefetchable_mem_base', pb), ('prefetchable_mem_limit', pl | 0xfffff)):
            setattr(f, n, x)
        st = 0
        for n, lsb in SEC_STATUS:
            st = st | fld(v, f, n, 1) << lsb
        exp[7] = (iob >> 8 & 0xf0) | (iol & 0xf000) | 0x0101 | st
        exp[8] = mb >> 16 | ml
        exp[9] = (pb & 0xfff00000) >> 16 | (pl & 0xfff00000) | 0x00010001
        exp[10] = pb >> 32
        exp[11] = pl >> 32
        exp[12] = iob >> 16 | (iol & 0xffff0000)
    else:
        exp[10] = exp[14] = 0
    f.expansion_rom_addr_mask = 0xfffff800
    ra, re = v.bits('rom21', 21), v.bits('rom_en', 1)
    f.expansion_rom_addr = ra << 11
    f.expansion_rom_enable = re
    exp[14 if hdr == 'bridge' else 12] = ra << 11 | re
    return f, exp


@contract('P10', cases=['endpoint', 'bridge'], covers=['m'])
def header_layout(v, hdr):
    """requires every header field in range.  ensures each register reads the fields at their defined positions and zero
    elsewhere"""
    f, exp = function(v, hdr)
    v.cover('m')
    for reg in range(16):
        x = exp.get(reg)
        if x is not None:
            v.check('register %d layout' % reg, v.eq(rd(v, f, reg), x))


@contract('P10', cases=[(h, r) for h in ('endpoint', 'bridge') for r in range(17)], covers=['m'])
def header_write(v, case):
    """one write with any data and byte enables to header register `reg` (16: any register outside the header that no
    capability owns): RW bits in enabled bytes take the data, RW1C bits are cleared exactly by a one, all other bits of
    all registers (header and capabilities) are unchanged"""
    hdr, reg = case
    f, _ = function(v, hdr)
    nb = 2 if hdr == 'bridge' else 6
    rw = dict(RW[hdr])
    w1c = W1C[hdr]
    for i in range(nb):
        # arbitrary BAR contents: 32-bit memory BARs of arbitrary size (the sizes/types themselves are P09)
        sz = v.choice('barsize', [4, 12, 20, 31]) if i == 0 else 12 + i
        f.configure_bar(i, 1 << sz)
        wr(v, f, 4 + i, v.bits('bar%d' % i, 32))
        rw[4 + i] = M32 & ~((1 << sz) - 1)
    caps = range(16, 64)
    own = [r for r in range(16)]
    before = {r: rd(v, f, r) for r in own}
    cb = {r: rd(v, f, r) for r in caps}
    if reg == 16:
        occupied = {c.offset + k for c in f.capabilities.list for k in range(c.length)}
        free = [r for r in list(range(16, 64)) if r not in occupied][:3] + [63, 64, 65, 1000, 1023]
        reg = v.choice('free', free)
    data, be = v.bits('data', 32), v.bits('be', 4)
    wr(v, f, reg, data, be)
    v.cover('m')
    for r in own:
        a = rd(v, f, r)
        if r == reg:
            v.check('register written by its rules',
                    v.eq(a, expected(v, before[r], data, be, rw.get(r, 0), w1c.get(r, 0))))
        else:
            v.check('register %d unchanged' % r, v.eq(a, before[r]))
    for r in caps:
        v.check('capability registers unchanged', v.eq(rd(v, f, r), cb[r]))


@contract('P10', covers=['m'])
def bridge_windows(v):
    """whatever the prior state, after programming the window registers the forwarding windows are exactly the ranges
    they encode (base rounded down, limit up to the granule), in any register order"""
    f, _ = function(v, 'bridge')
    r7, r8, r9, r10, r11, r12 = [v.bits('r%d' % k, 32) for k in (7, 8, 9, 10, 11, 12)]
    order = v.choice('order', [(7, 8, 9, 10, 11, 12), (12, 11, 10, 9, 8, 7)])
    vals = {7: r7, 8: r8, 9: r9, 10: r10, 11: r11, 12: r12}
    for k in order:
        wr(v, f, k, vals[k])
    v.cover('m')
    v.check('io base', v.eq(f.io_base, (r12 & 0xffff) << 16 | (r7 & 0xf0) << 8))
    v.check('io limit', v.eq(f.io_limit, (r12 & 0xffff0000) | (r7 & 0xf000) | 0xfff))
    v.check('mem base', v.eq(f.mem_base, (r8 & 0xfff0) << 16))
    v.check('mem limit', v.eq(f.mem_limit, (r8 & 0xfff00000) | 0xfffff))
    v.check('prefetchable base', v.eq(f.prefetchable_mem_base, r10 << 32 | (r9 & 0xfff0) << 16))
    v.check('prefetchable limit', v.eq(f.prefetchable_mem_limit, r11 << 32 | (r9 & 0xfff00000) | 0xfffff))


@contract('P10', cases=['endpoint', 'bridge'], covers=['m'])
def header_reset_state(v, hdr):
    """a freshly built function satisfies the state invariant the register contracts start from"""
    f = v.mod('core.bridge').Bridge() if hdr == 'bridge' else v.mod('core.endpoint').Endpoint()
    v.cover('m')
    v.check('command register off', rd(v, f, 1) & 0xffff == 0)
    v.check('capability list present', rd(v, f, 1) >> 20 & 1 == 1)
    v.check('header type', rd(v, f, 3) >> 16 & 0x7f == (1 if hdr == 'bridge' else 0))
    if hdr == 'bridge':
        v.check('limits end on the granule', v.And(f.io_limit & 0xfff == 0xfff, f.mem_limit & 0xfffff == 0xfffff,
                                                   f.prefetchable_mem_limit & 0xfffff == 0xfffff,
                                                   f.io_base & 0xfff == 0, f.mem_base & 0xfffff == 0,
                                                   f.prefetchable_mem_base & 0xfffff == 0))


# ------------------------------------------------------------------------------------------------ P11

PM = ({0: (3 << 16, [('pme_clock', 19, 1), ('immediate_readiness_on_return_to_d0', 20, 1),
                     ('device_specific_initialization', 21, 1), ('aux_current', 22, 3), ('d1_support', 25, 1),
                     ('d2_support', 26, 1), ('pme_support', 27, 5)]),
       1: (0, [('power_state', 0, 2), ('no_soft_reset', 3, 1), ('pme_enable', 8, 1), ('data_select', 9, 4),
               ('data_scale', 13, 2), ('pme_status', 15, 1), ('pm_data', 24, 8)])},
      {1: 0x7f03}, {1: 0x8000})

PCIE = ({
    0: (2 << 16, [('pcie_device_type', 20, 4), ('pcie_slot_implemented', 24, 1), ('interrupt_message_number', 25, 5)]),
    1: (0, [('max_payload_size_supported', 0, 3), ('phantom_functions_supported', 3, 2), ('extended_tag_supported', 5, 1),
            ('endpoint_l0s_acceptable_latency', 6, 3), ('endpoint_l1_acceptable_latency', 9, 3),
            ('role_based_error_reporting', 15, 1), ('captured_slot_power_limit_value', 18, 8),
            ('captured_slot_power_limit_scale', 26, 2), ('function_level_reset_capability', 28, 1)]),
    2: (0, [('correctable_error_reporting_enable', 0, 1), ('non_fatal_error_reporting_enable', 1, 1),
            ('fatal_error_reporting_enable', 2, 1), ('unsupported_request_reporting_enable', 3, 1),
            ('enable_relaxed_ordering', 4, 1), ('max_payload_size', 5, 3), ('extended_tag_field_enable', 8, 1),
            ('phantom_functions_enable', 9, 1), ('aux_power_pm_enable', 10, 1), ('enable_no_snoop', 11, 1),
            ('max_read_request_size', 12, 3),
            ('correctable_error_detected', 16, 1), ('nonfatal_error_detected', 17, 1), ('fatal_error_detected', 18, 1),
            ('unsupported_request_detected', 19, 1), ('aux_power_detected', 20, 1), ('transactions_pending', 21, 1),
            ('emergency_power_reduction_detected', 22, 1)]),
    3: (0, [('max_link_speed', 0, 4), ('max_link_width', 4, 6), ('aspm_support', 10, 2), ('l0s_exit_latency', 12, 3),
            ('l1_exit_latency', 15, 3), ('clock_power_management', 18, 1),
            ('surprise_down_error_reporting_capability', 19, 1),
            ('data_link_layer_link_active_reporting_capable', 20, 1), ('link_bandwidth_notification_capability', 21, 1),
            ('aspm_optionality_compliance', 22, 1), ('port_number', 24, 8)]),
    4: (0, [('aspm_control', 0, 2), ('read_completion_boundary', 3, 1), ('link_disable', 4, 1),
            ('common_clock_configuration', 6, 1), ('extended_synch', 7, 1), ('enable_clock_power_management', 8, 1),
            ('hardware_autonomous_width_disable', 9, 1), ('link_bandwidth_management_interrupt_enable', 10, 1),
            ('link_autonomous_bandwidth_interrupt_enable', 11, 1), ('drs_signalling_control', 14, 2),
            ('current_link_speed', 16, 4), ('negotiated_link_width', 20, 6), ('link_training', 27, 1),
            ('slot_clock_configuration', 28, 1), ('data_link_layer_link_active', 29, 1),
            ('link_bandwidth_management_status', 30, 1), ('link_autonomous_bandwidth_status', 31, 1)]),
    5: (0, [('attention_button_present', 0, 1), ('power_controller_present', 1, 1), ('mrl_sensor_present', 2, 1),
            ('attention_indicator_present', 3, 1), ('power_indicator_present', 4, 1), ('hot_plug_surprise', 5, 1),
            ('hot_plug_capable', 6, 1), ('slot_power_limit_value', 7, 8), ('slot_power_limit_scale', 15, 2),
            ('electromechanical_interlock_present', 17, 1), ('no_command_completed_support', 18, 1),
            ('physical_slot_number', 19, 13)]),
    6: (0, [('attention_button_pressed_enable', 0, 1), ('power_fault_detected_enable', 1, 1),
            ('mrl_sensor_changed_enable', 2, 1), ('presence_detect_changed_enable', 3, 1),
            ('command_completed_interrupt_enable', 4, 1), ('hot_plug_interrupt_enable', 5, 1),
            ('attention_indicator_control', 6, 2), ('power_indicator_control', 8, 2), ('power_controller_control', 10, 1),
            ('electromechanical_interlock_control', 11, 1), ('data_link_layer_state_changed_enable', 12, 1),
            ('auto_slot_power_limit_disable', 13, 1),
            ('attention_button_pressed', 16, 1), ('power_fault_detected', 17, 1), ('mrl_sensor_changed', 18, 1),
            ('presence_detect_changed', 19, 1), ('command_completed', 20, 1), ('mrl_sensor_state', 21, 1),
            ('presence_detect_state', 22, 1), ('electromechanical_interlock_status', 23, 1),
            ('data_link_layer_state_changed', 24, 1)]),
    7: (0, [('system_error_on_correctable_error_enable', 0, 1), ('system_error_on_non_fatal_error_enable', 1, 1),
            ('system_error_on_fatal_error_enable', 2, 1), ('pme_interrupt_enable', 3, 1),
            ('crs_software_visibility_enable', 4, 1), ('crs_software_visibility', 16, 1)]),
    8: (0, [('pme_requester_id', 0, 16), ('pme_status', 16, 1), ('pme_pending', 17, 1)]),
    9: (0, [('completion_timeout_ranges_supported', 0, 4), ('completion_timeout_disable_supported', 4, 1),
            ('ari_forwarding_supported', 5, 1), ('atomic_op_forwarding_supported', 6, 1),
            ('atomic_op_32_bit_completer_supported', 7, 1), ('atomic_op_64_bit_completer_supported', 8, 1),
            ('cas_128_bit_completer_supported', 9, 1), ('no_ro_enabled_pr_pr_passing', 10, 1),
            ('ltr_mechanism_supported', 11, 1), ('tph_completer_supported', 12, 2), ('obff_supported', 18, 2),
            ('extended_fmt_field_supported', 20, 1), ('end_end_tlp_prefix_supported', 21, 1),
            ('max_end_end_tlp_prefix', 22, 2), ('emergency_power_reduction_supported', 24, 2),
            ('emergency_power_reduction_initialization_required', 26, 1), ('frs_supported', 31, 1)]),
    10: (0, [('completion_timeout_value', 0, 4), ('completion_timeout_disable', 4, 1), ('ari_forwarding_enable', 5, 1),
             ('atomic_op_requester_enable', 6, 1), ('atomic_op_egress_blocking', 7, 1), ('ido_request_enable', 8, 1),
             ('ido_completion_enable', 9, 1), ('ltr_mechanism_enable', 10, 1),
             ('emergency_power_reduction_request', 11, 1), ('ten_bit_tag_requester_enable', 12, 1),
             ('obff_enable', 13, 2), ('end_end_tlp_prefix_blocking', 15, 1)]),
    11: (0, [('supported_link_speeds', 1, 7), ('crosslink_supported', 8, 1),
             ('lower_skp_os_generation_supported_speeds', 9, 7), ('lower_skp_os_reception_supported_speeds', 16, 7),
             ('retimer_presence_detect_supported', 23, 1), ('two_retimers_presence_detect_supported', 24, 1),
             ('drs_supported', 31, 1)]),
    12: (0, [('target_link_speed', 0, 4), ('enter_compliance', 4, 1), ('hardware_autonomous_speed_disable', 5, 1),
             ('selectable_deemphasis', 6, 1), ('transmit_margin', 7, 3), ('enter_modified_compliance', 10, 1),
             ('compliance_sos', 11, 1), ('compliance_preset_deemphasis', 12, 4),
             ('current_deemphasis_level', 16, 1), ('equalization_8gt_complete', 17, 1),
             ('equalization_8gt_phase_1_successful', 18, 1), ('equalization_8gt_phase_2_successful', 19, 1),
             ('equalization_8gt_phase_3_successful', 20, 1), ('link_equalization_8gt_request', 21, 1),
             ('retimer_presence_detected', 22, 1), ('two_retimers_presence_detected', 23, 1),
             ('crosslink_resolution', 24, 2), ('downstream_component_presence', 28, 3), ('drs_message_received', 31, 1)]),
    13: (0, []), 14: (0, [])},
    {2: 0x7fff, 4: 0xcfdb, 6: 0x3fff, 7: 0x1f, 10: 0xffff, 12: 0xffbf},
    {2: 0x004f0000, 4: 0xc0000000, 6: 0x011f0000, 8: 0x00010000, 12: 0x80200000})

MSIX = ({0: (0, [('msix_table_size', 16, 11), ('msix_function_mask', 30, 1), ('msix_enable', 31, 1)])},
        {0: 0xc0000000}, {})

UNC = ['data_link_protocol_error', 'surprise_down_error', 'poisoned_tlp_received', 'flow_control_protocol_error',
       'completion_timeout', 'completer_abort', 'unexpected_completion', 'receiver_overflow', 'malformed_tlp',
       'ecrc_error', 'unsupported_request_error', 'acs_violation', 'uncorrectable_internal_error', 'mc_blocked_tlp',
       'atomicop_egress_blocked', 'tlp_prefix_blocked_error', 'poisoned_tlp_egress_blocked']
UNCB = [4, 5, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]
COR = ['receiver_error', 'bad_tlp', 'bad_dllp', 'replay_num_rollover', 'replay_timer_timeout', 'advisory_nonfatal_error',
       'corrected_internal_error', 'header_log_overflow']
CORB = [0, 6, 7, 8, 12, 13, 14, 15]
UM = sum(1 << b for b in UNCB)
CM = sum(1 << b for b in CORB)
AER = ({1: (0, [(n + '_status', b, 1) for n, b in zip(UNC, UNCB)]),
        2: (0, [(n + '_mask', b, 1) for n, b in zip(UNC, UNCB)]),
        3: (0, [(n + '_severity', b, 1) for n, b in zip(UNC, UNCB)]),
        4: (0, [(n + '_status', b, 1) for n, b in zip(COR, CORB)]),
        5: (0, [(n + '_mask', b, 1) for n, b in zip(COR, CORB)]),
        6: (0, [('first_error_pointer', 0, 5), ('ecrc_generation_capable', 5, 1), ('ecrc_generation_enable', 6, 1),
                ('ecrc_check_capable', 7, 1), ('ecrc_check_enable', 8, 1), ('multiple_header_recording_capable', 9, 1),
                ('multiple_header_recording_enable', 10, 1), ('tlp_prefix_log_present', 11, 1),
                ('completion_timeout_prefix_header_log_capable', 12, 1)]),
        11: (0, [('correctable_error_reporting_enable', 0, 1), ('nonfatal_error_reporting_enable', 1, 1),
                 ('fatal_error_reporting_enable', 2, 1)]),
        12: (0, [('err_cor_received', 0, 1), ('multiple_err_cor_received', 1, 1), ('err_fatal_nonfatal_received', 2, 1),
                 ('multiple_err_fatal_nonfatal_received', 3, 1), ('first_uncorrectable_fatal', 4, 1),
                 ('nonfatal_error_messages_received', 5, 1), ('fatal_error_messages_received', 6, 1),
                 ('advanced_error_interrupt_message_number', 27, 5)]),
        13: (0, [('err_cor_source_identification', 0, 16), ('err_fatal_nonfatal_source_identification', 16, 16)])},
       {2: UM, 3: UM, 5: CM, 6: 0x540, 11: 7}, {1: UM, 4: CM, 12: 0x7f})

SPCIE = ({1: (0, [('perform_equalization', 0, 1), ('link_equalization_request_interrupt_enable', 1, 1),
                  ('enable_lower_skp_os_generation', 9, 7)]),
          2: (0, [('lane_error_status', 0, 32)])},
         {1: 0xfe03}, {2: M32})

LANES = [('downstream_port_8gt_transmitter_preset', 0, 4), ('downstream_port_8gt_receiver_preset_hint', 4, 3),
         ('upstream_port_8gt_transmitter_preset', 8, 4), ('upstream_port_8gt_receiver_preset_hint', 12, 3)]


def capfun(v, which):
    """endpoint with all six capabilities; the one named has arbitrary fields.
    -> (f, cap, expected layout, rw, w1c, number of registers)"""
    c = v.mod('core.caps')
    f = v.mod('core.endpoint').Endpoint()
    caps = dict(pm=f.pm_cap, pcie=f.pcie_cap, msi=c.MsiCapability(), msix=c.MsixCapability(),
                aer=c.AerExtendedCapability(), spcie=c.PcieExtendedCapability())
    f.register_capability(caps['msi'])
    f.register_capability(caps['msix'])
    f.register_extended_capability(caps['aer'])
    f.register_extended_capability(caps['spcie'])
    cap = caps[which]
    hdr_next = cap.next_cap
    if which in ('pm', 'pcie'):
        tab, rw, w1c = PM if which == 'pm' else PCIE
        exp = init(v, cap, tab)
        n = 2 if which == 'pm' else 15
    elif which == 'aer':
        tab, rw, w1c = AER
        exp = init(v, cap, tab)
        for k in range(4):
            cap.header_log[k] = exp[7 + k] = v.bits('hl%d' % k, 32)
            cap.tlp_prefix_log[k] = exp[14 + k] = v.bits('pl%d' % k, 32)
        n = 18
    elif which == 'spcie':
        tab, rw, w1c = SPCIE
        exp = init(v, cap, tab)
        lane = {}
        for name, lsb, w in LANES:
            for i in range(32):
                x = v.bits('%s_%d' % (name, i), w)
                getattr(cap, name)[i] = x
                lane[name, i] = x
        for k in range(16):
            x = 0
            for i in (0, 1):
                for name, lsb, w in LANES:
                    x = x | lane[name, 2 * k + i] << lsb + 16 * i
            exp[3 + k] = x
        n = 19
    elif which == 'msix':
        tab, rw, w1c = MSIX
        exp = init(v, cap, tab)
        for reg, nm in ((1, 'table'), (2, 'pba')):
            b, o = v.bits(nm + 'bir', 3), v.bits(nm + 'off', 29)
            setattr(cap, 'msix_%s_bar_indicator_register' % nm, b)
            setattr(cap, 'msix_%s_offset' % nm, o << 3)
            exp[reg] = o << 3 | b
        n = 3
    else:
        is64, pvm, ext = [v.choice(x, [0, 1]) for x in ('is64', 'pvm', 'ext')]
        cap.msi_64bit_address_capable, cap.msi_per_vector_mask_capable = is64, pvm
        cap.msi_extended_message_data_capable = ext
        exp = init(v, cap, {0: (is64 << 23 | pvm << 24 | ext << 25, [
            ('msi_enable', 16, 1), ('msi_multiple_message_capable', 17, 3), ('msi_multiple_message_enable', 20, 3)])})
        if ext:
            exp[0] = exp[0] | fld(v, cap, 'msi_extended_message_data_enable', 1) << 26
        lo, hi, dt = v.bits('alo', 30), v.bits('ahi', 32), v.bits('mdata', 32 if ext else 16)
        cap.msi_message_address = lo << 2 | (hi << 32 if is64 else 0)
        cap.msi_message_data = dt
        exp[1] = lo << 2
        rw, w1c = {0: 0x00710000 | ext << 26, 1: 0xfffffffc}, {}
        k = 2
        if is64:
            exp[2], rw[2] = hi, M32
            k = 3
        exp[k], rw[k] = dt, M32 if ext else 0xffff
        k += 1
        if pvm:
            exp[k], rw[k] = fld(v, cap, 'msi_mask_bits', 32), M32
            exp[k + 1] = fld(v, cap, 'msi_pending_bits', 32)
            k += 2
        for j in range(k, 6):
            exp[j] = 0
        n = 6
    e = which in ('aer', 'spcie')
    cid = dict(pm=1, pcie=0x10, msi=5, msix=0x11, aer=1, spcie=0x19)[which]
    if e:
        exp[0] = hdr_next << 20 | cap.cap_ver << 16 | cid
    elif exp.get(0) is not None:
        exp[0] = exp[0] | (hdr_next & 0xff) << 8 | cid
    return f, cap, exp, rw, w1c, n


def everything(v, f):
    """all header and capability registers of the function"""
    out = {r: rd(v, f, r) for r in range(16)}
    for cl in (f.capabilities, f.ext_capabilities):
        for c in cl.list:
            for k in range(c.length):
                out[c.offset + k] = rd(v, f, c.offset + k)
    return out


CAPS = ['pm', 'pcie', 'msi', 'msix', 'aer', 'spcie']


@contract('P11', cases=CAPS, covers=['m'])
def cap_layout(v, which):
    """every field of the capability reads back at its specified position, all other bits are zero"""
    f, cap, exp, rw, w1c, n = capfun(v, which)
    v.cover('m')
    for k in range(n):
        if exp.get(k) is None:
            continue
        v.check('register %d layout' % k, v.eq(v.run(cap.read_register(k)), exp[k]))
        if k < cap.length:
            v.check('same through configuration space', v.eq(rd(v, f, cap.offset + k), exp[k]))


@contract('P11', cases=CAPS, covers=['m'])
def cap_write(v, which):
    """a configuration write with any data and byte enables to any register of the capability follows its RW / RW1C / RO
    rules and changes no other register of the function (header and all other capabilities included)"""
    f, cap, exp, rw, w1c, n = capfun(v, which)
    k = v.choice('reg', list(range(min(n, cap.length))))
    before = everything(v, f)
    data, be = v.bits('data', 32), v.bits('be', 4)
    wr(v, f, cap.offset + k, data, be)
    after = everything(v, f)
    v.cover('m')
    for r in before:
        if r == cap.offset + k:
            v.check('written by the access rules', v.eq(after[r], expected(v, before[r], data, be, rw.get(k, 0),
                                                                           w1c.get(k, 0))))
        else:
            v.check('other registers unchanged', v.eq(after[r], before[r]))


@contract('P11', covers=['m'])
def aer_root_registers(v):
    """AER registers beyond the default length (root error, TLP prefix log): same rules at capability level"""
    f, cap, exp, rw, w1c, n = capfun(v, 'aer')
    k = v.choice('reg', list(range(11, 18)))
    before = [v.run(cap.read_register(r)) for r in range(n)]
    data, be = v.bits('data', 32), v.bits('be', 4)
    v.run(cap.write_register(k, data, be))
    v.cover('m')
    for r in range(n):
        a = v.run(cap.read_register(r))
        if r == k:
            v.check('written by the access rules', v.eq(a, expected(v, before[r], data, be, rw.get(k, 0), w1c.get(k, 0))))
        else:
            v.check('other registers unchanged', v.eq(a, before[r]))


@contract('P11', covers=['yes', 'no'])
def pcie_actions(v):
    """function level reset and link retrain are initiated exactly when a one is written to their bit with its byte
    enabled; both read as zero"""
    f, cap, exp, rw, w1c, n = capfun(v, 'pcie')
    hits = []

    async def flr():
        hits.append('flr')

    async def retrain():
        hits.append('retrain')
    cap.initiate_function_level_reset = flr
    cap.initiate_retrain_link = retrain
    k = v.choice('reg', list(range(15)))
    data, be = v.bits('data', 32), v.bits('be', 4)
    wr(v, f, cap.offset + k, data, be)
    want = False
    if k == 2:
        want = v.And(v.truth(data >> 15 & 1), v.truth(be >> 1 & 1))
    if k == 4:
        want = v.And(v.truth(data >> 5 & 1), v.truth(be & 1))
    if want:
        v.cover('yes')
        v.check('initiated once', hits == ['flr' if k == 2 else 'retrain'])
    else:
        v.cover('no')
        v.check('not initiated', hits == [])
    r = rd(v, f, cap.offset + k)
    if k == 2:
        v.check('reads zero', r >> 15 & 1 == 0)
    if k == 4:
        v.check('reads zero', r >> 5 & 1 == 0)

"""TLP: pack/unpack and header layout (P01), byte enables (P03), completions/copies/equality (P04), validity and
classification (P05)."""
from vc.reg import contract

REQ = ['CFG_READ_0', 'CFG_WRITE_0', 'CFG_READ_1', 'CFG_WRITE_1', 'MEM_READ', 'MEM_READ_64', 'MEM_READ_LOCKED',
       'MEM_READ_LOCKED_64', 'MEM_WRITE', 'MEM_WRITE_64', 'IO_READ', 'IO_WRITE', 'FETCH_ADD', 'FETCH_ADD_64', 'SWAP',
       'SWAP_64', 'CAS', 'CAS_64']
CPL = ['CPL', 'CPL_DATA', 'CPL_LOCKED', 'CPL_LOCKED_DATA']
MSG = ['MSG_TO_RC', 'MSG_ADDR', 'MSG_ID', 'MSG_BCAST', 'MSG_LOCAL', 'MSG_GATHER', 'MSG_DATA_TO_RC', 'MSG_DATA_ADDR',
       'MSG_DATA_ID', 'MSG_DATA_BCAST', 'MSG_DATA_LOCAL', 'MSG_DATA_GATHER']

# fmt[2:0], type[4:0] as in table 2-3 of the base specification (independent of the code's table)
FMT_TYPE = {
    'MEM_READ': (0, 0x00), 'MEM_READ_64': (1, 0x00), 'MEM_READ_LOCKED': (0, 0x01), 'MEM_READ_LOCKED_64': (1, 0x01),
    'MEM_WRITE': (2, 0x00), 'MEM_WRITE_64': (3, 0x00), 'IO_READ': (0, 0x02), 'IO_WRITE': (2, 0x02),
    'CFG_READ_0': (0, 0x04), 'CFG_WRITE_0': (2, 0x04), 'CFG_READ_1': (0, 0x05), 'CFG_WRITE_1': (2, 0x05),
    'CPL': (0, 0x0a), 'CPL_DATA': (2, 0x0a), 'CPL_LOCKED': (0, 0x0b), 'CPL_LOCKED_DATA': (2, 0x0b),
    'FETCH_ADD': (2, 0x0c), 'FETCH_ADD_64': (3, 0x0c), 'SWAP': (2, 0x0d), 'SWAP_64': (3, 0x0d),
    'CAS': (2, 0x0e), 'CAS_64': (3, 0x0e),
}
for _i, _n in enumerate(MSG[:6]):
    FMT_TYPE[_n] = (1, 0x10 + _i)
for _i, _n in enumerate(MSG[6:]):
    FMT_TYPE[_n] = (3, 0x10 + _i)

POSTED = {'MEM_WRITE', 'MEM_WRITE_64'} | set(MSG)


def has_data(t):
    return FMT_TYPE[t][0] in (2, 3)


def four_dw(t):
    return FMT_TYPE[t][0] in (1, 3)


def mk_id(v, u, name):
    return u.PcieId(v.bits(name + '.bus', 8), v.bits(name + '.dev', 5), v.bits(name + '.fn', 3))


def sym_tlp(v, tname, prefix='', byte_count0=False):
    """an arbitrary well-formed TLP of the given type (header; no payload)"""
    T = v.mod('core.tlp')
    u = v.mod('core.utils')
    p = prefix
    t = T.Tlp()
    t.fmt_type = T.TlpType[tname]
    t.tc = T.TlpTc(v.bits(p + 'tc', 3))
    t.ln = v.bool(p + 'ln')
    t.th = v.bool(p + 'th')
    t.td = v.bool(p + 'td')
    t.ep = v.bool(p + 'ep')
    t.attr = T.TlpAttr(v.bits(p + 'attr', 3))
    t.at = T.TlpAt(v.int(p + 'at', 0, 2))
    t.tag = v.bits(p + 'tag', 10)
    t.requester_id = mk_id(v, u, p + 'req')
    if tname in CPL:
        t.completer_id = mk_id(v, u, p + 'cpl')
        t.status = T.CplStatus(v.choice(p + 'status', [0, 1, 2, 4]))
        t.bcm = v.bool(p + 'bcm')
        t.byte_count = v.int(p + 'byte_count', 1, 4096)
        t.lower_address = v.bits(p + 'lower_address', 7)
        t.length = v.int(p + 'length', 1, 1024) if 'DATA' in tname else v.int(p + 'length', 0, 1023)
    else:
        t.length = v.int(p + 'length', 1, 1024)
        t.first_be = v.bits(p + 'first_be', 4)
        t.last_be = v.bits(p + 'last_be', 4)
        if tname.startswith('CFG'):
            t.completer_id = mk_id(v, u, p + 'cpl')
            t.address = v.bits(p + 'reg', 10) << 2
        else:
            t.address = v.bits(p + 'addr', 62 if tname.endswith('64') else 30) << 2
            t.ph = v.bits(p + 'ph', 2)
    return t


FIELDS = ['fmt', 'type', 'tc', 'ln', 'th', 'td', 'ep', 'attr', 'at', 'length', 'completer_id', 'status', 'bcm',
          'byte_count', 'requester_id', 'tag', 'first_be', 'last_be', 'lower_address', 'address', 'ph', 'seq']


def idint(i):
    return i.bus << 8 | i.device << 3 | i.function


def b2i(v, x):
    return v.ite(x, 1, 0)


def spec_header(v, t, tname):
    """the header bytes of the base specification: list of byte values"""
    fmt, typ = FMT_TYPE[tname]
    ln = t.length % 1024
    attr, tag = t.attr, t.tag
    b = [
        fmt << 5 | typ,
        (tag >> 9 & 1) << 7 | t.tc << 4 | (tag >> 8 & 1) << 3 | (attr >> 2 & 1) << 2 | b2i(v, t.ln) << 1 | b2i(v, t.th),
        b2i(v, t.td) << 7 | b2i(v, t.ep) << 6 | (attr & 3) << 4 | t.at << 2 | ln >> 8,
        ln & 0xff,
    ]
    rid, cid = idint(t.requester_id), idint(t.completer_id)
    if tname in CPL:
        bc = t.byte_count % 4096
        b += [cid >> 8, cid & 0xff, t.status << 5 | b2i(v, t.bcm) << 4 | bc >> 8, bc & 0xff,
              rid >> 8, rid & 0xff, tag & 0xff, t.lower_address]
        return b
    b += [rid >> 8, rid & 0xff, tag & 0xff, t.last_be << 4 | t.first_be]
    if tname.startswith('CFG'):
        b += [cid >> 8, cid & 0xff, t.address >> 8, t.address & 0xfc]
    else:
        n = 8 if four_dw(tname) else 4
        a = t.address | t.ph
        b += [a >> (8 * k) & 0xff for k in range(n - 1, -1, -1)]
    return b


@contract('P01', cases=REQ + CPL, covers=['packed'])
def tlp_header_roundtrip(v, tname):
    """requires: fields in range.  ensures: unpack_header(pack_header(t)) has t's fields, size as the format says"""
    T = v.mod('core.tlp')
    t = sym_tlp(v, tname)
    b = t.pack_header()
    v.cover('packed')
    v.check('header size', len(b) == (16 if four_dw(tname) else 12))
    u = T.Tlp.unpack_header(b)
    for f in FIELDS:
        v.check('round trip ' + f, v.eq(getattr(u, f), getattr(t, f)))
    v.check('pack(unpack)', u.pack_header() == b)


@contract('P01', cases=REQ + CPL, covers=['packed'])
def tlp_header_layout(v, tname):
    """ensures: every header byte is the one the base specification defines"""
    t = sym_tlp(v, tname)
    b = t.pack_header()
    s = spec_header(v, t, tname)
    v.cover('packed')
    v.check('size', len(b) == len(s))
    for i in range(len(s)):
        v.check('header byte %d' % i, v.eq(v.byte(b, i), s[i]))


@contract('P01', cases=REQ + CPL, covers=['unpacked'])
def tlp_unpack_spec(v, tname):
    """ensures: unpacking the specification's header bytes gives the fields (decoder side on its own)"""
    T = v.mod('core.tlp')
    t = sym_tlp(v, tname)
    pkt = v.mk_bytes(spec_header(v, t, tname))
    u = T.Tlp.unpack_header(pkt)
    v.cover('unpacked')
    for f in FIELDS:
        v.check('field ' + f, v.eq(getattr(u, f), getattr(t, f)))


@contract('P01', cases=REQ + CPL, covers=['data'])
def tlp_payload_roundtrip(v, tname):
    """arbitrary payload of the length in the header (any number of DW): unpack(pack(t)) == t with the same payload"""
    T = v.mod('core.tlp')
    t = sym_tlp(v, tname)
    if has_data(tname):
        t.data = v.bytes('data', t.length * 4, mutable=True)
    p = t.pack()
    u = T.Tlp.unpack(p)
    v.cover('data')
    hs = 16 if four_dw(tname) else 12
    v.check('packed length', v.len(p) == hs + (t.length * 4 if has_data(tname) else 0))
    v.check_bytes('payload', u.data, t.data)
    for f in FIELDS:
        v.check('round trip ' + f, v.eq(getattr(u, f), getattr(t, f)))
    v.check_bytes('bytes(tlp)', bytes(t) if not v.symbolic else t.__bytes__(), p)


@contract('P01', covers=['t', 'u'])
def tlp_type_codes(v):
    """every TlpType has the fmt/type code of the base specification and fmt_type maps both ways"""
    T = v.mod('core.tlp')
    name = v.choice('t', REQ + CPL + MSG)
    t = T.Tlp()
    t.fmt_type = T.TlpType[name]
    v.check('code of ' + name, (t.fmt, t.type) == FMT_TYPE[name])
    v.cover('t')
    u = T.Tlp()
    u.fmt, u.type = FMT_TYPE[name]
    v.check('type of code', u.fmt_type is T.TlpType[name])
    v.cover('u')


# ------------------------------------------------------------------------------------------------ P03

@contract('P03', covers=['zero', 'one', 'two', 'more'], cases=['32', '64'])
def set_addr_be(v, w):
    """requires 0 <= addr, 0 <= length <= 4096, fits 1024 DW.
    ensures byte k of the DW range is enabled iff addr <= k < addr+length; derived values are those of addr, length"""
    T = v.mod('core.tlp')
    t = T.Tlp()
    addr = v.bits('addr', int(w))
    length = v.int('length', 0, 4096)
    v.assume((addr & 3) + length <= 4096)
    r = t.set_addr_be(addr, length)
    if length == 0:
        v.cover('zero')
        v.check('zero length: one DW, nothing enabled', v.And(t.length == 1, t.first_be == 0, t.last_be == 0))
        v.check('zero length: address', t.address == addr - addr % 4)
        return
    if t.length == 1:
        v.cover('one')
    elif t.length == 2:
        v.cover('two')
    else:
        v.cover('more')
    v.check('DW address', v.And(t.address % 4 == 0, t.address <= addr, addr - t.address < 4))
    v.check('pads', v.And(r[0] == addr - t.address, r[1] == t.address + t.length * 4 - addr - length))
    v.check('DW count', v.And(t.length >= 1, t.length <= 1024, t.address + t.length * 4 >= addr + length,
                              t.address + (t.length - 1) * 4 < addr + length))
    k = v.int('k', 0, 4099)
    v.assume(k < t.length * 4)
    en = v.ite(k < 4, t.first_be >> (k & 3) & 1,
               v.ite(k >= t.length * 4 - 4, t.last_be >> (k & 3) & 1, 1))
    inside = v.And(t.address + k >= addr, t.address + k < addr + length)
    v.check('byte enabled iff requested', v.eq(v.truth(en), inside))
    v.check('single DW has no last byte enables', v.Implies(t.length == 1, t.last_be == 0))
    v.check('byte enables are 4 bits', v.And(t.first_be >= 0, t.first_be <= 15, t.last_be >= 0, t.last_be <= 15))
    v.check('byte count', t.get_be_byte_count() == length)
    v.check('first offset', t.get_first_be_offset() == addr & 3)
    v.check('last offset', t.get_last_be_offset() == t.length * 4 - (addr & 3) - length)
    v.check('lower address', t.get_lower_address() == addr & 0x7f)


@contract('P03', covers=['zero', 'data'])
def set_addr_be_data(v):
    """payload carries data[i] in the lane of addr+i, pads are zero, length matches (any length up to 4096)"""
    T = v.mod('core.tlp')
    t = T.Tlp()
    addr = v.bits('addr', 64)
    n = v.int('n', 0, 4096)
    v.assume((addr & 3) + n <= 4096)
    data = v.bytes('data', n)
    t.set_addr_be_data(addr, data)
    v.check('payload is length DW', v.len(t.data) == t.length * 4)
    v.check('payload type', isinstance(t.get_data(), (bytes, bytearray)) or v.symbolic)
    k = v.int('k', 0, 4099)
    v.assume(k < t.length * 4)
    x = v.byte(t.get_data(), k)
    if n == 0:
        v.cover('zero')
        v.check('no data: nothing enabled', v.And(t.first_be == 0, t.last_be == 0, t.length == 1))
        return
    v.cover('data')
    j = k - (addr & 3)
    if v.And(j >= 0, j < n):
        v.check('byte in its lane', x == v.byte(data, j))
    else:
        v.check('pad byte', x == 0)
    v.check('DW address', t.address == addr - addr % 4)
    v.check('byte count', t.get_be_byte_count() == n)
    en = v.ite(k < 4, t.first_be >> (k & 3) & 1, v.ite(k >= t.length * 4 - 4, t.last_be >> (k & 3) & 1, 1))
    v.check('lane enabled iff carries data', v.eq(v.truth(en), v.And(j >= 0, j < n)))


@contract('P03', covers=['m'])
def be_general(v):
    """for every request with any (also non-contiguous) byte enables the byte count and offsets span exactly from the
    first to the last enabled byte"""
    T = v.mod('core.tlp')
    t = T.Tlp()
    t.length = v.int('length', 1, 1024)
    t.first_be = v.int('first_be', 1, 15)
    t.last_be = v.int('last_be', 0, 15)
    t.address = v.bits('dw', 62) << 2
    v.assume(v.ite(t.length == 1, t.last_be == 0, t.last_be != 0))
    v.cover('m')
    first = 0
    for k in (3, 2, 1, 0):
        first = v.ite(v.truth(t.first_be >> k & 1), k, first)
    be = v.ite(t.length == 1, t.first_be, t.last_be)
    last = 0
    for k in (0, 1, 2, 3):
        last = v.ite(v.truth(be >> k & 1), k, last)
    v.check('first offset', t.get_first_be_offset() == first)
    v.check('last offset', t.get_last_be_offset() == 3 - last)
    v.check('byte count', t.get_be_byte_count() == (t.length - 1) * 4 + last - first + 1)
    v.check('lower address', t.get_lower_address() == (t.address + first) % 128)


@contract('P03', covers=['m'])
def set_data(v):
    """set_data stores the bytes unchanged and the DW count"""
    T = v.mod('core.tlp')
    t = T.Tlp()
    n = v.int('dw', 0, 1024)
    d = v.bytes('data', n * 4)
    t.set_data(d)
    v.cover('m')
    v.check_bytes('payload', t.get_data(), d)
    v.check('length', t.length == n)


# ------------------------------------------------------------------------------------------------ P04

KINDS = {'completion': ('create_completion_for_tlp', None, None), 'data': ('create_completion_data_for_tlp', True, 0),
         'ur': ('create_ur_completion_for_tlp', False, 1), 'crs': ('create_crs_completion_for_tlp', False, 2),
         'ca': ('create_ca_completion_for_tlp', False, 4)}


@contract('P04', cases=sorted(KINDS), covers=['built'])
def completion_for_request(v, kind):
    """requires: any request.  ensures: requester ID, tag, TC, attributes of the request; given completer and status;
    data type iff asked for; empty payload; and the request is left unchanged"""
    T = v.mod('core.tlp')
    u = v.mod('core.utils')
    tname = v.choice('type', ['CFG_READ_0', 'CFG_WRITE_1', 'MEM_READ', 'MEM_READ_64', 'IO_READ', 'IO_WRITE', 'SWAP'])
    t = sym_tlp(v, tname)
    before = T.Tlp(t)
    fn, data, status = KINDS[kind]
    comp = mk_id(v, u, 'completer')
    if kind == 'completion':
        data = v.choice('data', [False, True])
        status = v.choice('status', [0, 1, 2, 4])
        c = T.Tlp.create_completion_for_tlp(t, comp, data, T.CplStatus(status))
    else:
        c = getattr(T.Tlp, fn)(t, comp)
    v.cover('built')
    v.check('type', c.fmt_type is (T.TlpType.CPL_DATA if data else T.TlpType.CPL))
    v.check('requester ID', c.requester_id == t.requester_id)
    v.check('tag', c.tag == t.tag)
    v.check('traffic class', c.tc == t.tc)
    v.check('attributes', c.attr == t.attr)
    v.check('completer ID', c.completer_id == comp)
    v.check('status', c.status == status)
    v.check('no payload yet', len(c.data) == 0)
    v.check('is completion', c.is_completion())
    for f in FIELDS:
        v.check('request unchanged: ' + f, v.eq(getattr(t, f), getattr(before, f)))


def any_fields(v, p):
    """a Tlp with every field arbitrary (not nec. well-formed): name -> value"""
    u = v.mod('core.utils')
    return dict(
        fmt=v.bits(p + 'fmt', 3), type=v.bits(p + 'type', 5), tc=v.bits(p + 'tc', 3), ln=v.bool(p + 'ln'),
        th=v.bool(p + 'th'), td=v.bool(p + 'td'), ep=v.bool(p + 'ep'), attr=v.bits(p + 'attr', 3),
        at=v.bits(p + 'at', 2), length=v.bits(p + 'length', 11), completer_id=mk_id(v, u, p + 'cid'),
        status=v.bits(p + 'status', 3), bcm=v.bool(p + 'bcm'), byte_count=v.bits(p + 'bc', 13),
        requester_id=mk_id(v, u, p + 'rid'), tag=v.bits(p + 'tag', 10), first_be=v.bits(p + 'fbe', 4),
        last_be=v.bits(p + 'lbe', 4), lower_address=v.bits(p + 'la', 7), address=v.bits(p + 'addr', 64),
        ph=v.bits(p + 'ph', 2), seq=v.bits(p + 'seq', 12))


def fill(t, d):
    for k, x in d.items():
        setattr(t, k, x)
    return t


@contract('P04', covers=['copied'])
def tlp_copy(v):
    """Tlp(t) has every field of t, compares equal, and does not share payload storage"""
    T = v.mod('core.tlp')
    d = any_fields(v, '')
    t = fill(T.Tlp(), d)
    t.data = v.bytes('data', 6, mutable=True)
    c = T.Tlp(t)
    v.cover('copied')
    for k in d:
        v.check('copy of ' + k, v.eq(getattr(c, k), d[k]))
    v.check_bytes('copy of payload', c.data, t.data)
    v.check('copy compares equal', v.truth(c == t))
    old = v.byte(t.data, 2)
    c.data[2] = v.bits('x', 8)
    c.data.extend(b'zz')
    v.check('payload not shared', v.And(v.len(t.data) == 6, v.byte(t.data, 2) == old))


@contract('P04', covers=['copied'])
def tlp_copy_subclass(v):
    """copies made by the vendor packet classes keep all base fields too"""
    T = v.mod('core.tlp')
    U = v.mod('xilinx.us.tlp')
    d = any_fields(v, '')
    t = fill(T.Tlp(), d)
    t.data = v.bytes('data', 5, mutable=True)
    c = U.Tlp_us(t)
    v.cover('copied')
    for k in d:
        v.check('copy of ' + k, v.eq(getattr(c, k), d[k]))
    v.check_bytes('copy of payload', c.data, t.data)
    c.data[0] = v.bits('x', 8)
    c.data.extend(b'q')
    v.check('payload not shared', v.len(t.data) == 5)


EQF = ['fmt', 'type', 'tc', 'ln', 'th', 'td', 'ep', 'attr', 'at', 'length', 'completer_id', 'status', 'bcm',
       'byte_count', 'requester_id', 'tag', 'first_be', 'last_be', 'lower_address', 'address', 'ph', 'seq', 'data']


@contract('P04', cases=EQF, covers=['differs', 'same'])
def tlp_equality(v, f):
    """two TLPs agreeing in all other fields are equal iff field f agrees"""
    T = v.mod('core.tlp')
    d = any_fields(v, '')
    a = fill(T.Tlp(), d)
    b = fill(T.Tlp(), d)
    a.data = v.bytes('data', 5, mutable=True)
    b.data = bytearray(a.data) if not v.symbolic else a.data.copy()
    if f == 'data':
        e = v.bytes('data2', v.choice('n2', [0, 4, 5, 6]), mutable=True)
        b.data = e
        same = a.data == b.data
    else:
        x = any_fields(v, 'o.')[f]
        setattr(b, f, x)
        same = v.eq(x, d[f])
    if same:
        v.cover('same')
        v.check('equal when all fields agree', v.And(v.truth(a == b), v.truth(b == a)))
    else:
        v.cover('differs')
        v.check('unequal when %s differs' % f, v.And(v.Not(v.truth(a == b)), v.Not(v.truth(b == a))))
        v.check('!= agrees', v.truth(a != b))


# ------------------------------------------------------------------------------------------------ P05

def wellformed(v, t, tname, n):
    """the specification's rules, over the packet's fields and payload size n"""
    c = []
    if has_data(tname):
        c.append(v.And(t.length >= 1, t.length <= 1024, n == t.length * 4))
    if tname.startswith('MEM'):
        c.append((t.address & 0xfff) + t.length * 4 <= 4096)
    if tname.startswith('CFG') or tname.startswith('IO_'):
        c.append(v.And(t.length == 1, t.last_be == 0))
    if tname in ('CPL_DATA', 'CPL_LOCKED_DATA'):
        c.append(v.Not((t.lower_address & 3) + t.byte_count + 3 < t.length * 4))
    if tname in ('CPL', 'CPL_LOCKED') or tname in MSG[:6]:
        c.append(t.length == 0)
    return v.And(*c)


@contract('P05', cases=REQ + CPL + MSG, covers=['ok', 'bad'])
def tlp_check(v, tname):
    """check() accepts exactly the well-formed packets, whatever the payload length"""
    T = v.mod('core.tlp')
    t = T.Tlp()
    t.fmt_type = T.TlpType[tname]
    t.length = v.int('length', 0, 1100)
    t.address = v.bits('addr', 62) << 2
    t.first_be = v.bits('fbe', 4)
    t.last_be = v.bits('lbe', 4)
    t.byte_count = v.int('bc', 0, 4096)
    t.lower_address = v.bits('la', 7)
    t.tag = v.bits('tag', 10)
    n = v.int('n', 0, 4400)
    if not has_data(tname):
        v.assume(n == 0)
    t.data = v.bytes('data', n, mutable=True)
    good = wellformed(v, t, tname, n)
    r = t.check()
    if good:
        v.cover('ok')
        v.check('well-formed packet accepted', v.truth(r))
    else:
        v.cover('bad')
        v.check('malformed packet rejected', v.Not(v.truth(r)))


# types where nothing can be malformed in the checked fields
for _h in list(__import__('vc.reg', fromlist=['PROPS']).PROPS['P05']):
    if _h.name.startswith('tlp_check') and _h.opts['case'] in ():
        _h.covers = ('ok',)


@contract('P05', covers=['all'], cases=REQ + CPL + MSG)
def tlp_classification(v, tname):
    """posted/non-posted/completion, has_data, header size, sizes and data credits agree with the packet type"""
    T = v.mod('core.tlp')
    D = v.mod('core.dllp')
    t = T.Tlp()
    t.fmt_type = T.TlpType[tname]
    n = v.int('dw', 0, 1024) if has_data(tname) else 0
    t.length = n
    t.data = v.bytes('data', n * 4, mutable=True)
    v.cover('all')
    p, c = tname in POSTED, tname in CPL
    np = not p and not c
    v.check('posted', bool(t.is_posted()) == p)
    v.check('non-posted', bool(t.is_nonposted()) == np)
    v.check('completion', bool(t.is_completion()) == c)
    v.check('credit type', t.get_fc_type() == (D.FcType.P if p else D.FcType.CPL if c else D.FcType.NP))
    v.check('has data', bool(t.has_data()) == has_data(tname))
    hs = 16 if four_dw(tname) else 12
    v.check('header size', v.And(t.get_header_size() == hs, t.get_header_size_dw() == hs // 4))
    v.check('payload size', v.And(t.get_payload_size() == n * 4, t.get_payload_size_dw() == n))
    v.check('total size', v.And(t.get_size() == hs + n * 4, t.get_size_dw() == hs // 4 + n,
                                t.get_wire_size() == hs + n * 4 + 8))
    cr = t.get_data_credits()
    v.check('data credits: 16 bytes each, rounded up', v.And(cr * 4 >= n, cr * 4 < n + 4))

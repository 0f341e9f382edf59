"""Xilinx UltraScale descriptors (P24): layout of the four interfaces as in PG156/PG213, round trips, byte enables,
parity, packet and frame copies."""
from vc.reg import contract, Thorough
from vc.contracts.c_tlp import REQ, CPL, mk_id, sym_tlp, has_data, four_dw, idint, b2i

# request type field (independent of the code's table)
RT = {'MEM_READ': 0, 'MEM_READ_64': 0, 'MEM_WRITE': 1, 'MEM_WRITE_64': 1, 'IO_READ': 2, 'IO_WRITE': 3, 'FETCH_ADD': 4,
      'FETCH_ADD_64': 4, 'SWAP': 5, 'SWAP_64': 5, 'CAS': 6, 'CAS_64': 6, 'MEM_READ_LOCKED': 7, 'MEM_READ_LOCKED_64': 7,
      'CFG_READ_0': 8, 'CFG_READ_1': 9, 'CFG_WRITE_0': 10, 'CFG_WRITE_1': 11}
MEMIO = [t for t in REQ if not t.startswith('CFG')]
SHORT = [1, 2, 3, 4, 7]
LONG = [33]


def tlp_us(v, tname, ndw):
    T = v.mod('xilinx.us.tlp')
    base = sym_tlp(v, tname)
    t = T.Tlp_us(base)
    t.tag = v.bits('tag8', 8)
    t.discontinue = v.bool('discontinue')
    if has_data(tname):
        t.length = ndw
        t.data = v.bytes('payload', 4 * ndw, True)
    elif tname in CPL:
        t.length = 0
    return t


def nodata(tname, ndw):
    return not has_data(tname) and ndw != 1


def lanes(types):
    r = []
    for t in types:
        if not has_data(t):
            r.append((t, 0))
        else:
            r += [(t, n) for n in SHORT]
    big = [t for t in types if has_data(t)][:1]
    r += [(t, n) for t in big for n in LONG]
    return r


def every(types):
    big = [t for t in types if has_data(t)][:1]
    return [Thorough((t, n)) for t in big for n in (5, 6, 8, 9, 16, 32, 64, 128, 256, 1024)]


BOUND = 'payload contents arbitrary; payload lengths 0-4, 7, 33 DW (thorough also 5, 6, 8, 9, 16, 32, 64, 128, 256, 1024)'


def dw_of(v, b, k):
    return v.byte(b, 4 * k) | v.byte(b, 4 * k + 1) << 8 | v.byte(b, 4 * k + 2) << 16 | v.byte(b, 4 * k + 3) << 24


def ghost_parity(v):
    """parity by contract (see parity_dw): any function of the DW"""
    I = v.mod('xilinx.us.interface')
    v.patch(I, 'dword_parity', lambda d: (d ^ d >> 7) & 0xf)
    return lambda d: ((d ^ d >> 7) & 0xf) ^ 0xf


def check_dws(v, pkt, spec, t, par):
    n = len(spec)
    ndw = v.len(t.data) // 4
    v.check('descriptor and payload length', len(pkt.data) == n + ndw)
    for i, w in enumerate(spec):
        v.check('descriptor DW %d' % i, v.eq(pkt.data[i], w))
    for j in range(0, ndw, 64):
        v.check('payload DWs', v.And(*[v.eq(pkt.data[n + k], dw_of(v, t.data, k)) for k in range(j, min(j + 64, ndw))]))
    v.check('parity of every DW', v.And(len(pkt.parity) == n + ndw,
                                        *[v.eq(p, par(d)) for p, d in zip(pkt.parity[:4], pkt.data[:4])]))
    v.check('parity of the last DW', v.eq(pkt.parity[-1], par(pkt.data[-1])))
    v.check('discontinue flag', v.eq(pkt.discontinue, t.discontinue))


def spec_be(v, t, ndw):
    if ndw == 0:
        return []
    if ndw == 1:
        return [t.first_be]
    return [t.first_be] + [0xf] * (ndw - 2) + [t.last_be]


COMMON = ['length', 'requester_id', 'tag', 'tc', 'attr']


def round_trip(v, t, u, fields):
    for f in fields:
        a, b = getattr(u, f), getattr(t, f)
        if f.endswith('_id') and f != 'bar_id':
            v.check('round trip ' + f, v.And(v.eq(a.bus, b.bus), v.eq(a.device, b.device), v.eq(a.function, b.function)))
        else:
            v.check('round trip ' + f, v.eq(a, b))
    v.check_bytes('round trip payload', u.data, t.data)


def same_kind(v, t, u, tname):
    """the type is recovered up to the width of the address, which follows from the address itself"""
    T = v.mod('core.tlp')
    short = tname[:-3] if tname.endswith('_64') else tname
    if short in ('MEM_READ', 'MEM_READ_LOCKED', 'MEM_WRITE', 'FETCH_ADD', 'SWAP', 'CAS'):
        if t.address > 0xffffffff:
            v.check('round trip type', u.fmt_type == T.TlpType[short + '_64'])
        else:
            v.check('round trip type', u.fmt_type == T.TlpType[short])
    else:
        v.check('round trip type', u.fmt_type == T.TlpType[tname])


@contract('P24', cases=lanes(MEMIO) + every(MEMIO), covers=['packed'], bounded=BOUND)
def cq(v, case):
    """completer request: requires an 8 bit tag and a function number as completer.  ensures the descriptor layout, the
    byte enables, and that unpacking gives the packet back"""
    tname, n = case
    T = v.mod('xilinx.us.tlp')
    u = v.mod('core.utils')
    t = tlp_us(v, tname, n)
    fn = v.bits('function', 3)
    t.completer_id = u.PcieId(0, 0, fn)
    t.bar_id = v.bits('bar', 3)
    t.bar_aperture = v.bits('aperture', 6)
    par = ghost_parity(v)
    pkt = t.pack_us_cq()
    v.cover('packed')
    a = t.address
    check_dws(v, pkt, [
        (a & 0xfffffffc) | t.at,
        a >> 32,
        t.length | RT[tname] << 11 | idint(t.requester_id) << 16,
        t.tag | fn << 8 | t.bar_id << 16 | t.bar_aperture << 19 | t.tc << 25 | t.attr << 28], t, par)
    ndw = v.len(t.data) // 4
    be = spec_be(v, t, ndw)
    v.check('number of byte enables', len(pkt.byte_en) == 4 + ndw)
    v.check('byte enables', v.And(*[v.eq(x, y) for x, y in zip(pkt.byte_en, [0] * 4 + be)]))
    v.check('first and last byte enables', v.And(v.eq(pkt.first_be, t.first_be), v.eq(pkt.last_be, t.last_be)))
    r = T.Tlp_us.unpack_us_cq(pkt, True)
    round_trip(v, t, r, COMMON + ['at', 'address', 'completer_id', 'bar_id', 'bar_aperture', 'first_be', 'last_be',
                                  'discontinue'])
    same_kind(v, t, r, tname)


@contract('P24', cases=lanes(REQ) + every(REQ), covers=['packed'], bounded=BOUND)
def rq(v, case):
    """requester request: ensures the descriptor layout and that unpacking gives the packet back"""
    tname, n = case
    T = v.mod('xilinx.us.tlp')
    u = v.mod('core.utils')
    t = tlp_us(v, tname, n)
    t.completer_id = mk_id(v, u, 'dest')
    t.requester_id_enable = v.bool('ride')
    t.seq_num = v.bits('seqnum', 6)
    cfg = tname.startswith('CFG')
    if cfg:
        t.at = v.mod('core.tlp').TlpAt(0)
    par = ghost_parity(v)
    pkt = t.pack_us_rq()
    v.cover('packed')
    a = t.address
    check_dws(v, pkt, [
        a if cfg else (a & 0xfffffffc) | t.at,
        0 if cfg else a >> 32,
        t.length | RT[tname] << 11 | b2i(v, t.ep) << 15 | idint(t.requester_id) << 16,
        t.tag | idint(t.completer_id) << 8 | b2i(v, t.requester_id_enable) << 24 | t.tc << 25 | t.attr << 28], t, par)
    v.check('first and last byte enables', v.And(v.eq(pkt.first_be, t.first_be), v.eq(pkt.last_be, t.last_be)))
    v.check('sequence number', v.eq(pkt.seq_num, t.seq_num))
    r = T.Tlp_us.unpack_us_rq(pkt, True)
    round_trip(v, t, r, COMMON + ['at', 'ep', 'address', 'completer_id', 'requester_id_enable', 'first_be', 'last_be',
                                  'discontinue', 'seq_num'])
    same_kind(v, t, r, tname)


@contract('P24', cases=lanes(CPL) + every(CPL), covers=['packed'], bounded=BOUND)
def cc(v, case):
    """completer completion: ensures the descriptor layout and that unpacking gives the completion back"""
    tname, n = case
    T = v.mod('xilinx.us.tlp')
    t = tlp_us(v, tname, n)
    t.completer_id_enable = v.bool('cide')
    par = ghost_parity(v)
    pkt = t.pack_us_cc()
    v.cover('packed')
    locked = 'LOCKED' in tname
    check_dws(v, pkt, [
        t.lower_address | t.at << 8 | t.byte_count << 16 | (1 << 29 if locked else 0),
        t.length | t.status << 11 | b2i(v, t.ep) << 14 | idint(t.requester_id) << 16,
        t.tag | idint(t.completer_id) << 8 | b2i(v, t.completer_id_enable) << 24 | t.tc << 25 | t.attr << 28], t, par)
    r = T.Tlp_us.unpack_us_cc(pkt, True)
    round_trip(v, t, r, COMMON + ['at', 'ep', 'lower_address', 'byte_count', 'status', 'completer_id',
                                  'completer_id_enable', 'discontinue'])
    v.check('round trip type', r.fmt_type == v.mod('core.tlp').TlpType[tname])


@contract('P24', cases=lanes(CPL) + every(CPL), covers=['packed'], bounded=BOUND)
def rc(v, case):
    """requester completion: requires that the byte count reaches the last payload DW.  ensures the descriptor layout,
    byte enables exactly on the requested bytes, and that unpacking gives the completion back"""
    tname, n = case
    T = v.mod('xilinx.us.tlp')
    t = tlp_us(v, tname, n)
    t.lower_address = v.bits('lower12', 12)
    t.error_code = v.bits('error', 4)
    t.request_completed = v.bool('completed')
    if n > 8:
        t.status = v.mod('core.tlp').CplStatus.SC
    first = t.lower_address & 3
    end = first + t.byte_count
    if n and has_data(tname):
        v.assume(end > 4 * n - 4)
    par = ghost_parity(v)
    pkt = t.pack_us_rc()
    v.cover('packed')
    locked = 'LOCKED' in tname
    check_dws(v, pkt, [
        t.lower_address | t.error_code << 12 | t.byte_count << 16 | (1 << 29 if locked else 0) |
        b2i(v, t.request_completed) << 30,
        t.length | t.status << 11 | b2i(v, t.ep) << 14 | idint(t.requester_id) << 16,
        t.tag | idint(t.completer_id) << 8 | t.tc << 25 | t.attr << 28], t, par)
    ndw = v.len(t.data) // 4
    v.check('number of byte enables', len(pkt.byte_en) == 3 + ndw)
    v.check('descriptor byte enables', v.And(*[v.eq(x, 0) for x in pkt.byte_en[:3]]))
    for k in range(ndw):
        for j in range(4) if k in (0, ndw - 1) else ():
            i = 4 * k + j
            v.check('byte enables mark the requested bytes',
                    v.eq(v.truth(pkt.byte_en[3 + k] >> j & 1), v.And(first <= i, i < end)))
    v.check('inner byte enables', v.And(*[v.eq(x, 0xf) for x in pkt.byte_en[4:-1]]) if ndw > 2 else True)
    r = T.Tlp_us.unpack_us_rc(pkt, True)
    round_trip(v, t, r, COMMON + ['ep', 'lower_address', 'byte_count', 'status', 'completer_id', 'error_code',
                                  'discontinue'])
    v.check('round trip request completed', v.eq(v.truth(r.request_completed), t.request_completed))
    v.check('round trip type', r.fmt_type == v.mod('core.tlp').TlpType[tname])


@contract('P24', cases=[('cq', t) for t in ('CFG_READ_0', 'CFG_WRITE_1', 'CPL', 'CPL_DATA')] +
          [('rq', 'CPL'), ('rq', 'CPL_DATA')] + [(i, t) for i in ('cc', 'rc') for t in REQ], covers=['refused'])
def wrong_interface(v, case):
    """a packet that does not belong on an interface is refused"""
    i, tname = case
    t = v.mod('xilinx.us.tlp').Tlp_us()
    t.fmt_type = v.mod('core.tlp').TlpType[tname]
    v.cover('refused')
    v.check('refused', v.raises(getattr(t, 'pack_us_' + i)) is not None)


@contract('P24', covers=['p'])
def parity_dw(v):
    """one odd parity bit per byte; a frame is accepted exactly while its parity is right"""
    I = v.mod('xilinx.us.interface')
    d = v.bits('dw', 32)
    p = I.dword_parity(d)
    v.cover('p')
    for b in range(4):
        x = 0
        for k in range(8):
            x = x ^ (d >> (8 * b + k) & 1)
        v.check('parity of byte %d' % b, v.eq(p >> b & 1, x))
    v.check('four bits', v.And(p >= 0, p < 16))


@contract('P24', covers=['good', 'bad'])
def parity_frame(v):
    """odd parity over every byte, and a mismatch in any DW is noticed"""
    I = v.mod('xilinx.us.interface')
    par = ghost_parity(v)
    f = I.UsPcieFrame()
    n = v.choice('n', [1, 2, 5])
    f.data = [v.bits('d%d' % k, 32) for k in range(n)]
    f.update_parity()
    for d, p in zip(f.data, f.parity):
        v.check('parity', v.eq(p, par(d)))
    v.check('accepted', f.check_parity())
    k = v.choice('k', list(range(n)))
    f.parity[k] = v.bits('wrong', 4)
    if v.eq(f.parity[k], par(f.data[k])):
        v.cover('good')
        v.check('accepted', f.check_parity())
    else:
        v.cover('bad')
        v.check('mismatch noticed', v.Not(f.check_parity()))


@contract('P24', cases=['MEM_WRITE', 'CPL_DATA', 'CFG_READ_0'], covers=['c'])
def copies(v, tname):
    """a copied packet or frame keeps every field and does not share its payload"""
    T = v.mod('xilinx.us.tlp')
    I = v.mod('xilinx.us.interface')
    t = tlp_us(v, tname, 2)
    t.bar_id = v.bits('bar', 3)
    t.bar_aperture = v.bits('aperture', 6)
    t.completer_id_enable = v.bool('cide')
    t.requester_id_enable = v.bool('ride')
    t.seq_num = v.bits('seqnum', 6)
    t.error_code = v.bits('error', 4)
    t.request_completed = v.bool('completed')
    c = T.Tlp_us(t)
    v.cover('c')
    for f in ['fmt', 'type', 'tc', 'ln', 'th', 'td', 'ep', 'attr', 'at', 'length', 'status', 'bcm', 'byte_count', 'tag',
              'first_be', 'last_be', 'lower_address', 'address', 'ph', 'seq', 'bar_id', 'bar_aperture',
              'completer_id_enable', 'requester_id_enable', 'discontinue', 'seq_num', 'error_code', 'request_completed']:
        v.check('copy keeps ' + f, v.eq(getattr(c, f), getattr(t, f)))
    v.check('copy keeps the IDs', v.And(v.eq(idint(c.requester_id), idint(t.requester_id)),
                                        v.eq(idint(c.completer_id), idint(t.completer_id))))
    v.check_bytes('copy keeps the payload', c.data, t.data)
    v.check('payload is not shared', c.data is not t.data)
    f = I.UsPcieFrame()
    f.data = [v.bits('d%d' % k, 32) for k in range(3)]
    f.byte_en = [v.bits('b%d' % k, 4) for k in range(3)]
    f.parity = [v.bits('p%d' % k, 4) for k in range(3)]
    f.first_be, f.last_be = v.bits('fbe', 4), v.bits('lbe', 4)
    f.discontinue = v.bool('fdisc')
    f.seq_num = v.bits('fseq', 6)
    g = I.UsPcieFrame(f)
    for n in ('data', 'byte_en', 'parity'):
        a, b = getattr(f, n), getattr(g, n)
        v.check('frame copy keeps ' + n, v.And(len(a) == len(b), *[v.eq(x, y) for x, y in zip(a, b)]))
        v.check('frame copy does not share ' + n, a is not b)
    for n in ('first_be', 'last_be', 'discontinue', 'seq_num'):
        v.check('frame copy keeps ' + n, v.eq(getattr(f, n), getattr(g, n)))

"""specification helpers shared by several contract files"""
from vc.contracts.c_tlp import mk_id, sym_tlp, has_data, four_dw, CPL, POSTED   # noqa: F401


def req_tlp(v, tname, prefix=''):
    """an arbitrary well-formed request of the type; -> tlp.  length/enables/payload are left to the caller"""
    t = sym_tlp(v, tname, prefix)
    t.ep = False
    return t


def single_dw(v, tname, prefix='', data=None):
    """well-formed configuration or IO request (one DW, last byte enables clear)"""
    t = req_tlp(v, tname, prefix)
    # the fields below are fixed by the protocol for these types
    t.length = 1
    t.last_be = 0
    T = v.mod('core.tlp')
    t.tc = T.TlpTc(0)
    t.attr = T.TlpAttr(0)
    t.at = T.TlpAt(0)
    if has_data(tname):
        t.data = v.bytes(prefix + 'wdata', 4) if data is None else data
    return t


class Fc:
    """ghost: counts the releases of a packet's flow control credits"""
    def __init__(self, tlp):
        self.n = 0
        tlp.release_fc_cb = self.rel

    def rel(self):
        self.n += 1


class Sink:
    """transmit handler that records what is sent"""
    def __init__(self):
        self.sent = []

    async def __call__(self, tlp):
        self.sent.append(tlp)


def idv(i):
    return i.bus << 8 | i.device << 3 | i.function


def id_eq(v, a, b):
    return v.And(v.eq(a.bus, b.bus), v.eq(a.device, b.device), v.eq(a.function, b.function))


def check_cpl(v, cpl, req, status, completer=None, data=None, nbytes=None, what='', byte_count=None, lower=None):
    """cpl is a well-formed completion of req (given as a snapshot, see Snap)"""
    T = v.mod('core.tlp')
    kind = T.TlpType.CPL if data is None else T.TlpType.CPL_DATA
    v.check(what + 'completion type', cpl.fmt_type == kind)
    v.check(what + 'completion status', cpl.status == status)
    v.check(what + 'completion carries the requester id', id_eq(v, cpl.requester_id, req.requester_id))
    v.check(what + 'completion carries the tag', v.eq(cpl.tag, req.tag))
    v.check(what + 'completion carries class and attributes', v.And(v.eq(cpl.tc, req.tc), v.eq(cpl.attr, req.attr)))
    if completer is not None:
        v.check(what + 'completer id', id_eq(v, cpl.completer_id, completer))
    if data is not None:
        v.check_bytes(what + 'completion data', cpl.get_data(), data)
        v.check(what + 'completion length', v.eq(cpl.length, (v.len(data) + 3) // 4))
    if byte_count is not None:
        v.check(what + 'completion byte count', v.eq(cpl.byte_count, byte_count))
    if lower is not None:
        v.check(what + 'completion lower address', v.eq(cpl.lower_address, lower))
    v.check(what + 'completion is well formed', cpl.check())


class Snap:
    """field values of a packet at a point in time"""
    def __init__(self, t):
        for n in ('fmt_type', 'tc', 'attr', 'tag', 'requester_id', 'completer_id', 'address', 'first_be', 'last_be',
                  'length', 'at', 'ep', 'td', 'th', 'ln', 'ph', 'status', 'byte_count', 'lower_address', 'bcm'):
            setattr(self, n, getattr(t, n))
        self.data = bytes(t.data) if type(t.data) in (bytes, bytearray) else t.data


def same_packet(v, t, s, what='', but=()):
    """t equals the snapshot s in every field"""
    for n in ('fmt_type', 'tc', 'attr', 'tag', 'requester_id', 'completer_id', 'address', 'first_be', 'last_be',
              'length', 'at', 'ep', 'td', 'th', 'ln', 'ph', 'status', 'byte_count', 'lower_address', 'bcm'):
        if n in but:
            continue
        a, b = getattr(t, n), getattr(s, n)
        if a is b:
            continue
        v.check(what + 'packet field ' + n, id_eq(v, a, b) if n.endswith('_id') else v.eq(a, b))
    v.check_bytes(what + 'packet payload', t.data, s.data)

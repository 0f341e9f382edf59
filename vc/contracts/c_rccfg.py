"""Configuration accesses made by the root complex (P19)."""
from vc.reg import contract, Thorough
from vc.contracts._common import Sink, id_eq, mk_id
from vc.contracts._loops import Poison
from vc.contracts.c_mem import root, Space
from vc.contracts.c_dma import SplitLoop, Plain, Req, step, payload, arrays, Ops, WORDS, word_value
from vc.explore import NoSuchState

RC = 'cocotbext.pcie.core.rc'
RESULT = ['success', 'timeout', 'retry', 'UR', 'CA']


def one_dw(v, t, g, kind, dev, n):
    """request t is a legal single-DW configuration request to dev that continues the access"""
    T = v.mod('core.tlp')
    U = v.mod('core.utils')
    v.check('request is well formed', t.check())
    v.check('type 1 configuration request', t.fmt_type == T.TlpType[kind])
    v.check('to the addressed function', id_eq(v, t.completer_id, dev))
    v.check('from the root complex', id_eq(v, t.requester_id, U.PcieId(0, 0, 0)))
    v.check('one DW', v.And(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    r = Req(v, t)
    v.check('enables are one contiguous run', r.contiguous)
    v.check('register address is DW aligned', v.eq(t.address % 4, 0))
    v.check('starts exactly at the next byte', v.eq(r.addr, g.addr))
    v.check('covers at least one byte', r.count > 0)
    v.check('does not run past the end', r.count <= n - g.pos)
    return r


class CfgLoop(SplitLoop):
    def __init__(self, v, fn, n, a0, before=None):
        super().__init__(v, fn, n, a0, 12, RC)
        self.before = before
        self.fresh = None

    def begin(self, lc, loc, k, a):
        v = self.v
        if self.before is not None:
            xs = arrays(v, loc)
            if len(xs) != 1 or v.truth(v.eq(v.len(xs[0]), 0)) is not True:
                raise NoSuchState('collected data')
            self.data = xs[0]
            if bool(v.eq(k, self.n)):
                # the last DW may have brought bytes behind the addressed ones
                self.data.extend(self.before[0:self.n + v.havoc_int('over', 0, 3)])
            else:
                self.data.extend(self.before[0:k])
        return super().begin(lc, loc, k, a)

    def again(self, lc, loc):
        v = self.v
        if self.before is not None:
            ln, upto = v.len(self.data), self.start + self.moved
            v.check('collects no more and no less than the bytes read',
                    v.Or(v.eq(ln, upto), v.And(v.eq(upto, self.n), ln >= upto)))
            i = v.havoc_int('i', 0, v.hi(self.n) + 3)
            v.check('keeps the bytes collected before', v.Implies(i < self.start, v.eq(
                v.byte(self.data, i), v.byte(self.before, i))))
            j = v.havoc_int('j', 0, 3)
            v.check('collects exactly the addressed bytes', v.Implies(j < self.moved, v.eq(
                v.byte(self.data, self.start + j), self.fresh(j))))
        v.stop()


def setup(v):
    return root(v, Space(v, 'mem'), Space(v, 'io'))


class Cap:
    crs_software_visibility_enable = False


class IngressPort:
    def __init__(self):
        self.pcie_cap = Cap()


def completion(v, t, how, k, vis, dw):
    """completion of request t; -> (list returned by the operation, expected register bytes)"""
    T = v.mod('core.tlp')
    ones = [0xff] * 4
    if how == 'timeout':
        return [], ones
    c = T.Tlp()
    if how == 'success':
        c.fmt_type = T.TlpType.CPL_DATA
        c.status = T.CplStatus.SC
        c.length = 1
        c.byte_count = 4
        c.data = dw
        return [c], [v.byte(dw, i) for i in range(4)]
    c.fmt_type = T.TlpType.CPL
    c.status = {'retry': T.CplStatus.CRS, 'UR': T.CplStatus.UR, 'CA': T.CplStatus.CA}[how]
    c.byte_count = 4
    if how == 'retry' and vis is not None:
        c.ingress_port = IngressPort()
        c.ingress_port.pcie_cap.crs_software_visibility_enable = vis
        if vis:
            # software visible retry: the vendor ID reads as 0001h, everything else as ones
            zero = v.eq(t.address, 0)
            return [c], [v.ite(zero, 1, 0xff), v.ite(zero, 0, 0xff), 0xff, 0xff]
    return [c], ones


@contract('P19', covers=['request', 'returned'], cases=RESULT)
def read(v, how):
    """any offset and length; each request's completion gives its own bytes, a failed one all ones"""
    v.fork()
    rc, out = setup(v)
    U = v.mod('core.utils')
    dev = mk_id(v, U, 'dev')
    n = v.int('len', 1, 4096)
    a0 = v.bits('dw', 10) << 2 | v.bits('byte', 2)
    v.assume(a0 + n <= 4096)
    to = v.choice('timeout', [0, 9])
    vis = v.choice('visible', [None, False, True])
    dw = v.bytes('content', 4096 if not v.symbolic else 4)
    g = Plain(a0)
    exp = []
    if v.symbolic:
        g = CfgLoop(v, 'RootComplex.config_read', n, a0, v.bytes('before', v.int('before.size', 4200, 4201)))
        v.loops = g
    count = [0]

    def request(t, timeout, unit):
        v.cover('request')
        v.check('timeout is passed on', timeout == to and (unit == 'us' or not to))
        r = one_dw(v, t, g, 'CFG_READ_1', dev, n)
        step(g, r)
        count[0] += 1
        return r, count[0]

    def result(t, x):
        r, k = x
        h = how
        if not v.symbolic:
            h = v.choice('how%d' % k, [how, 'success'])
        d = dw if v.symbolic else dw[4 * (k - 1):4 * k]
        cl, e = completion(v, t, h, k, vis, d)
        if v.symbolic:
            def fresh(j):
                o = r.lead + j
                return v.ite(v.eq(o, 0), e[0], v.ite(v.eq(o, 1), e[1], v.ite(v.eq(o, 2), e[2], e[3])))
            g.fresh = fresh
        else:
            exp.extend(e[r.lead:r.lead + r.count])
        return cl
    Ops(v, rc, request, result)
    d = v.run(rc.config_read(dev, a0, n, timeout=to, timeout_unit='us'))
    v.cover('returned')
    v.check('every byte is requested', v.eq(g.pos, n))
    v.check_bytes('returns the bytes', d, bytes(exp) if not v.symbolic else g.before[0:n])
    v.check('nothing is sent by other means', not out.sent)


@contract('P19', covers=['one', 'several'], cases=[0, 1, 2, 3, 4095],
          bounded='reads of up to 9 bytes')
def read_whole(v, offset):
    """the whole operation without loop contract"""
    rc, out = setup(v)
    dev = mk_id(v, v.mod('core.utils'), 'dev')
    n = v.choice('len', list(range(1, 2 if offset == 4095 else 10)))
    a0 = offset if offset == 4095 else (v.bits('dw', 8) << 2 | offset)
    vis = v.choice('visible', [None, False, True])
    g = Plain(a0)
    exp = []
    count = [0]

    def request(t, timeout, unit):
        r = one_dw(v, t, g, 'CFG_READ_1', dev, n)
        step(g, r)
        count[0] += 1
        return v.fix(r.lead), v.fix(r.count), count[0]

    def result(t, x):
        lead, cnt, k = x
        how = v.choice('how%d' % k, RESULT if k == 2 else ['success'])
        cl, e = completion(v, t, how, k, vis, v.bytes('d%d' % k, 4))
        exp.extend(e[lead:lead + cnt])
        return cl
    Ops(v, rc, request, result)
    d = v.run(rc.config_read(dev, a0, n))
    v.cover('one' if count[0] == 1 else 'several')
    if offset == 4095:
        v.cover('several')
    v.check('every byte is requested', v.eq(g.pos, n))
    v.check('number of bytes', v.eq(v.len(d), n))
    for i in range(n):
        v.check('returns the bytes', v.eq(v.byte(d, i), exp[i]))


@contract('P19', covers=['request'], cases=RESULT)
def write(v, how):
    """any offset and length, whatever the outcome of each request"""
    v.fork()
    rc, out = setup(v)
    T = v.mod('core.tlp')
    dev = mk_id(v, v.mod('core.utils'), 'dev')
    n = v.int('len', 1, 4096)
    a0 = v.bits('dw', 10) << 2 | v.bits('byte', 2)
    v.assume(a0 + n <= 4096)
    to = v.choice('timeout', [0, 9])
    data = v.bytes('data', n)
    g = Plain(a0)
    if v.symbolic:
        g = CfgLoop(v, 'RootComplex.config_write', n, a0)
        v.loops = g
    count = [0]

    def request(t, timeout, unit):
        v.cover('request')
        v.check('timeout is passed on', timeout == to and (unit == 'us' or not to))
        r = one_dw(v, t, g, 'CFG_WRITE_1', dev, n)
        v.check('payload is one DW', v.eq(v.len(t.data), 4))
        if v.symbolic:
            payload(v, t, r, data, g.pos)
        else:
            v.check('payload bytes are the caller\'s', bytes(t.data[r.lead:r.lead + r.count]) == data[g.pos:g.pos + r.count])
        step(g, r)
        count[0] += 1

    def result(t, x):
        cl, e = completion(v, t, how, 0, None, bytes(4))
        return cl
    Ops(v, rc, request, result)
    v.run(rc.config_write(dev, a0, data, timeout=to, timeout_unit='us'))
    v.check('every byte is written', v.eq(g.pos, n))
    v.check('nothing is sent by other means', not out.sent)


@contract('P19', covers=['m'], cases=['read', 'write'])
def nothing(v, op):
    """an access of no bytes makes no request"""
    v.cover('m')
    rc, out = setup(v)
    dev = mk_id(v, v.mod('core.utils'), 'dev')
    sent = []
    Ops(v, rc, lambda t, a, b: sent.append(t), lambda t, x: [])
    a = v.bits('addr', 12)
    if op == 'read':
        v.check('returns nothing', v.eq(v.len(v.run(rc.config_read(dev, a, 0))), 0))
    else:
        v.run(rc.config_write(dev, a, b''))
    v.check('no request', not sent)


KIND = [('config',) + w for w in WORDS] + [('capability',) + w for w in WORDS]


def tree(v, rc, dev):
    """the enumerated device tree: the function, with the capability asked for at an arbitrary offset; -> the offset"""
    P = v.mod('core.pci')
    C = v.mod('core.caps')
    offset = v.bits('cap offset', 10) << 2
    v.assume(offset >= 0x40)
    d = P.PciDevice(rc.host_bridge.bus)
    d.pcie_id = dev
    d.capabilities = [(C.PciCapId.PM, 0x40), (C.PciCapId.EXP, offset)]
    other = P.PciDevice(rc.host_bridge.bus)
    other.pcie_id = mk_id(v, v.mod('core.utils'), 'other')
    other.capabilities = [(C.PciCapId.EXP, 0x44)]
    v.assume(v.Not(v.And(v.eq(other.bus_num, dev.bus), v.eq(other.device_num, dev.device),
                         v.eq(other.function_num, dev.function))))
    rc.host_bridge.bus.devices = [other, d]
    return offset, C.PciCapId.EXP


@contract('P19', cases=KIND, covers=['m'], bounded='up to 3 words')
def read_words(v, case):
    """word-wise and capability-relative reads: one access of the words' bytes at the right offset, converted word by word"""
    space, name, ws = case
    v.cover('m')
    rc, out = setup(v)
    dev = mk_id(v, v.mod('core.utils'), 'dev')
    order = v.choice('order', ['little', 'big'])
    many = name.endswith('s')
    cnt = v.choice('count', [0, 1, 3]) if many else 1
    a = v.bits('addr', 10)
    mem = v.bytes('content', ws * cnt)
    calls = []
    offset, exp = tree(v, rc, dev)

    async def base(d, addr, length, timeout=0, timeout_unit='ns'):
        calls.append((d, addr, length, (timeout, timeout_unit)))
        return mem
    v.put(rc, 'config_read', base)
    kw = dict(timeout=3, timeout_unit='us')
    if name != 'byte':
        kw['byteorder'] = order
    if name in ('words', 'word'):
        kw['ws'] = ws
    fn = v.get(rc, '%s_read_%s' % (space, name))
    args = [dev] + ([exp] if space == 'capability' else []) + [a] + ([cnt] if many else [])
    r = v.run(fn(*args, **kw))
    v.check('one read of the whole', len(calls) == 1)
    off = offset if space == 'capability' else 0
    v.check('of the function', calls[0][0] is dev)
    v.check('at the address, of the length of the words', v.And(v.eq(calls[0][1], a + off), v.eq(calls[0][2], ws * cnt)))
    v.check('timeout is passed on', calls[0][3] == (3, 'us'))
    r = r if many else [r]
    v.check('number of words', len(r) == cnt)
    for i in range(cnt):
        v.check('value of each word', v.eq(r[i], word_value(v, mem, ws * i, ws, 'little' if name == 'byte' else order)))


@contract('P19', cases=KIND, covers=['m'], bounded='up to 3 words')
def write_words(v, case):
    """word-wise and capability-relative writes: the words' bytes in one access at the right offset"""
    space, name, ws = case
    v.cover('m')
    rc, out = setup(v)
    dev = mk_id(v, v.mod('core.utils'), 'dev')
    order = v.choice('order', ['little', 'big'])
    many = name.endswith('s')
    cnt = v.choice('count', [0, 1, 3]) if many else 1
    a = v.bits('addr', 10)
    words = [v.bits('w%d' % i, 8 * ws) for i in range(cnt)]
    calls = []
    offset, exp = tree(v, rc, dev)

    async def base(d, addr, data, timeout=0, timeout_unit='ns'):
        calls.append((d, addr, data, (timeout, timeout_unit)))
    v.put(rc, 'config_write', base)
    kw = dict(timeout=3, timeout_unit='us')
    if name != 'byte':
        kw['byteorder'] = order
    if name in ('words', 'word'):
        kw['ws'] = ws
    fn = v.get(rc, '%s_write_%s' % (space, name))
    args = [dev] + ([exp] if space == 'capability' else []) + [a, words if many else words[0]]
    v.run(fn(*args, **kw))
    v.check('one write of the whole', len(calls) == 1)
    off = offset if space == 'capability' else 0
    v.check('of the function', calls[0][0] is dev)
    v.check('at the address', v.eq(calls[0][1], a + off))
    v.check('timeout is passed on', calls[0][3] == (3, 'us'))
    d = calls[0][2]
    v.check('length of the words', v.eq(v.len(d), ws * cnt))
    if name == 'byte':
        v.check('value', v.eq(d[0], words[0]))
        return
    for i in range(cnt):
        v.check('bytes of each word', v.eq(word_value(v, d, ws * i, ws, order), words[i]))

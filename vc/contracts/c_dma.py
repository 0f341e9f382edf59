"""Requests made by functions and by the root complex: DMA writes (P15) and reads (P16), IO included.
The splitting loops are verified for any length by loop contracts: an arbitrary iteration starts at an arbitrary position
of the transfer; its request must start exactly there, be legal, and leave the position right behind itself."""
from vc.reg import contract, Thorough
from vc.contracts._common import Sink, id_eq, mk_id
from vc.contracts._loops import is_fn, locals_for, Poison
from vc.contracts.c_tags import requester
from vc.explore import NoSuchState

REGION = 'cocotbext.pcie.core.region'
TOP = 1 << 64


def lead(v, be):
    """index of the lowest enabled byte"""
    return v.ite(be & 1 != 0, 0, v.ite(be & 2 != 0, 1, v.ite(be & 4 != 0, 2, 3)))


def tail(v, be):
    """number of disabled bytes above the highest enabled one"""
    return v.ite(be & 8 != 0, 0, v.ite(be & 4 != 0, 1, v.ite(be & 2 != 0, 2, 3)))


class Req:
    """what a request asks for, read off its fields (independently of the code's helpers): bytes [addr, addr+count)"""
    def __init__(self, v, t):
        one = v.eq(t.length, 1)
        self.lead = lead(v, t.first_be)
        self.tail = v.ite(one, tail(v, t.first_be), tail(v, t.last_be))
        self.addr = t.address + self.lead
        self.count = t.length * 4 - self.lead - self.tail
        # enables form one contiguous run
        f = (0xf << self.lead) & 0xf
        last = 0xf >> self.tail
        self.contiguous = v.ite(one, v.And(v.eq(t.first_be, f & last), v.eq(t.last_be, 0)),
                                v.And(v.eq(t.first_be, f), v.eq(t.last_be, last)))


class Setup:
    def __init__(self, v, kind, mps=None, mrrs=None):
        T = v.mod('core.tlp')
        self.v, self.kind = v, kind
        self.f, self.out = requester(v, kind)
        f = self.f
        f.bus_master_enable = True
        if kind == 'function':
            me = mk_id(v, v.mod('core.utils'), 'me')
            v.assume(me.bus != 0)
            f.pcie_id = me
            cfg = f.pcie_cap
        else:
            cfg = f
        self.me = f.pcie_id
        if mps is not None:
            cfg.max_payload_size = mps
        if mrrs is not None:
            cfg.max_read_request_size = mrrs
        self.attr = T.TlpAttr(v.bits('attr', 3))
        self.tc = T.TlpTc(v.bits('tc', 3))


def position(v, n, bits=64):
    """an arbitrary address (kept in page/offset form), and an arbitrary progress within a transfer of n bytes"""
    rem = v.havoc_int('left', 0, v.hi(n))
    v.assume(rem <= n)
    k = n - rem
    a = v.havoc_int('page', 0, (1 << (bits - 12)) - 1) << 12 | v.havoc_int('dw', 0, 1023) << 2 | v.fix(v.havoc_int('byte', 0, 3))
    return k, a


def is_int(x):
    from vc.sym import SymInt
    return type(x) is int or isinstance(x, SymInt)


class SplitLoop:
    """contract of a splitting loop: the bytes done, the next address and the bytes left advance together"""
    def __init__(self, v, fn, n, a0, bits, module=REGION):
        self.v, self.fn, self.n, self.a0, self.bits, self.module = v, fn, n, a0, bits, module
        self.pos, self.addr = 0, a0           # ghost: where the next request must start
        self.start, self.from_, self.moved = 0, a0, 0
        self.used = False
        self.cut = False
        self.after = None

    def attach(self, lc):
        if not is_fn(lc, self.module, self.fn):
            return None
        if self.used:
            return self.after(lc) if self.after is not None else None
        self.used = True
        return self

    def find_roles(self, lc, loc):
        """the locals that carry the position from one iteration to the next, recognised by their value at entry: bytes
        done (0), next address (a0), bytes left (n)"""
        self.roles = {}
        for x in lc.site[4]:
            if x in loc and is_int(loc[x]):
                for role, val in (('done', 0), ('addr', self.a0), ('left', self.n)):
                    if loc[x] is val or self.v.valid(self.v.eq(loc[x], val)):
                        self.roles[x] = role
                        break
        if not self.roles:
            raise NoSuchState('position of the splitting loop')

    def values(self, k, a):
        return {x: {'done': k, 'addr': a, 'left': self.n - k}[r] for x, r in self.roles.items()}

    def known(self, loc):
        v = self.v
        d = self.moved
        return v.And(*[{'done': lambda x: v.eq(x - self.start, d), 'addr': lambda x: v.eq(x - self.from_, d),
                        'left': lambda x: v.eq(self.n - x - self.start, d)}[r](loc[x]) for x, r in self.roles.items()])

    def head(self, lc, loc):
        v = self.v
        if lc.count == 1:
            self.find_roles(lc, loc)
            k, a = position(v, self.n, self.bits)
            v.assume(a + (self.n - k) <= (1 << self.bits))
            self.pos, self.addr, self.start, self.from_, self.moved = k, a, k, a, 0
            self.cut = True
            return self.begin(lc, loc, k, a)
        v.aux('position after an iteration', self.known(loc))
        v.aux('progress', self.moved > 0)
        return self.again(lc, loc)

    def begin(self, lc, loc, k, a):
        return locals_for(lc, self.values(k, a))

    def again(self, lc, loc):
        self.v.stop()


def legal(v, s, t, g, kinds, limit, n):
    """request t continues the transfer of n bytes at ghost position g.pos / g.addr; moves the position; -> Req"""
    T = v.mod('core.tlp')
    v.check('request is well formed', t.check())
    if len(kinds) == 2:
        high = g.addr > 0xffffffff
        v.check('64-bit header exactly above 4 GB', v.eq(v.truth(t.fmt_type == T.TlpType[kinds[1]]), high))
        v.check('type of request', t.fmt_type in (T.TlpType[kinds[0]], T.TlpType[kinds[1]]))
    else:
        v.check('type of request', t.fmt_type == T.TlpType[kinds[0]])
    v.check('requester id is the function', id_eq(v, t.requester_id, s.me))
    if len(kinds) == 2:
        v.check('attributes and traffic class are the caller\'s', v.And(v.eq(t.attr, s.attr), v.eq(t.tc, s.tc)))
    r = Req(v, t)
    v.check('enables are one contiguous run', r.contiguous)
    v.check('address is DW aligned', v.eq(t.address % 4, 0))
    v.check('starts exactly at the next byte', v.eq(r.addr, g.addr))
    v.check('covers at least one byte', r.count > 0)
    v.check('does not run past the end', r.count <= n - g.pos)
    v.check('within the size limit', t.length * 4 <= limit)
    v.check('does not cross a 4 KB boundary', (t.address & 0xfff) + t.length * 4 <= 4096)
    return r


def step(g, r):
    g.pos = g.pos + r.count
    g.addr = g.addr + r.count
    g.moved = g.moved + r.count


def payload(v, t, r, data, pos):
    v.check('payload length is the request length', v.eq(v.len(t.data), t.length * 4))
    i = v.idx('probe', r.count)
    v.check('payload bytes are the caller\'s', v.eq(v.byte(t.data, r.lead + i), v.byte(data, pos + i)))


class Plain:
    """ghost position without a loop contract"""
    def __init__(self, a0):
        self.pos, self.addr, self.moved = 0, a0, 0
        self.cut = False


MPS = [('function', m) for m in (0, 2, 5)] + [('rc', 1)] + [Thorough(('function', m)) for m in (1, 3, 4)] + \
    [Thorough(('rc', m)) for m in (0, 2, 3, 4, 5)]
# split by timeout and by the state of the loop over the completions (together: every state)
STATES = ('data', 'error', 'no data', 'nothing', 'complete')
QUICK = [(k, m, to, x) for k, m, to in (('function', 2, 0), ('rc', 0, 9)) for x in STATES]
MRRS = QUICK + [Thorough(c) for k in ('function', 'rc') for m in range(6) for to in (0, 9) for x in STATES for c in [(k, m, to, x)]
                if c not in QUICK]
WRITE = ('MEM_WRITE', 'MEM_WRITE_64')


@contract('P15', cases=MPS, covers=['request'])
def mem_write(v, case):
    """any length at any address, every payload size"""
    kind, mps = case
    v.fork()
    s = Setup(v, kind, mps=mps)
    n = v.int('len', 1, TOP if v.symbolic else 9000)
    a0 = v.int('page', 0, (1 << 52) - 1) << 12 | v.bits('off', 12)
    v.assume(a0 + n <= TOP)
    data = v.bytes('data', n)
    g = Plain(a0)
    if v.symbolic:
        g = SplitLoop(v, 'MemoryTlpRegion.write', n, a0, 64)
        v.loops = g
    count = [0]

    async def post(t):
        v.cover('request')
        r = legal(v, s, t, g, WRITE, 128 << mps, n)
        v.check('payload length is the request length', v.eq(v.len(t.data), t.length * 4))
        if v.symbolic:
            payload(v, t, r, data, g.pos)
        else:
            v.check('payload bytes are the caller\'s', bytes(t.data[r.lead:r.lead + r.count]) == data[g.pos:g.pos + r.count])
        step(g, r)
        count[0] += 1
    v.put(s.f, 'perform_posted_operation', post)
    if v.symbolic:
        v.run(s.f.mem_region.write(a0, data, attr=s.attr, tc=s.tc))
    else:
        v.run(s.f.mem_region.write(a0, data, attr=s.attr, tc=s.tc) if kind == 'rc' else s.f.mem_write(
            a0, data, attr=s.attr, tc=s.tc))
    v.check('every byte is sent', v.eq(g.pos, n))


WHOLE = [('function', 1), ('rc', 0)] + [Thorough((k, b)) for k in ('function', 'rc') for b in (2, 3)]


@contract('P15', cases=WHOLE, covers=['one', 'several'], bounded='writes of up to 136 bytes, payload size 128')
def mem_write_whole(v, case):
    """the whole operation without loop contract"""
    kind, byte = case
    v.fork()
    s = Setup(v, kind, mps=0)
    n = v.int('len', 1, 136)
    a0 = v.int('page', 0, (1 << 52) - 1) << 12 | v.bits('off', 10) << 2 | byte
    v.assume(a0 + n <= TOP)
    data = v.bytes('data', n)
    g = Plain(a0)
    count = [0]

    async def post(t):
        r = legal(v, s, t, g, WRITE, 128, n)
        v.check('payload length is the request length', v.eq(v.len(t.data), t.length * 4))
        step(g, r)
        count[0] += 1
    v.put(s.f, 'perform_posted_operation', post)
    v.run(s.f.mem_region.write(a0, data, attr=s.attr, tc=s.tc))
    v.cover('one' if count[0] == 1 else 'several')
    v.check('every byte is sent', v.eq(g.pos, n))


def raises(v, coro):
    try:
        v.run(coro)
    except AssertionError:
        return True
    except Exception:
        return True
    return False


@contract('P15', cases=[(k, m) for k in ('function', 'rc') for m in ('mem', 'io')], covers=['m'])
def write_special(v, case):
    """a zero-length write is one request that enables nothing; without bus mastering nothing is sent and it fails"""
    kind, space = case
    v.cover('m')
    T = v.mod('core.tlp')
    s = Setup(v, kind)
    a = v.bits('addr', 64 if space == 'mem' else 32)
    sent = []

    async def post(t):
        sent.append(t)

    async def nonposted(t, timeout=0, timeout_unit='ns'):
        sent.append(t)
        c = T.Tlp()
        c.status = T.CplStatus.SC
        return [c]
    v.put(s.f, 'perform_posted_operation', post)
    v.put(s.f, 'perform_nonposted_operation', nonposted)
    region = s.f.mem_region if space == 'mem' else s.f.io_region
    off = bool(v.bool('disabled'))
    if off:
        s.f.bus_master_enable = False
        n = v.choice('len', [0, 1, 5])
        v.check('fails', raises(v, region.write(a, v.bytes('d', n))))
        v.check('nothing is sent', not sent)
        return
    kw = dict(attr=s.attr, tc=s.tc) if space == 'mem' else {}
    v.run(region.write(a, b'', **kw))
    v.check('one request', len(sent) == 1)
    t = sent[0]
    v.check('of one DW', v.And(v.eq(t.length, 1), v.eq(v.len(t.data), 4)))
    v.check('enables nothing', v.And(v.eq(t.first_be, 0), v.eq(t.last_be, 0)))
    v.check('at the address', v.eq(t.address, a - a % 4))
    v.check('requester id is the function', id_eq(v, t.requester_id, s.me))
    if space == 'mem':
        v.check('64-bit header exactly above 4 GB', v.eq(v.truth(t.fmt_type == T.TlpType.MEM_WRITE_64), a > 0xffffffff))
        v.check('type of request', t.fmt_type in (T.TlpType.MEM_WRITE, T.TlpType.MEM_WRITE_64))
        v.check('attributes and traffic class', v.And(v.eq(t.attr, s.attr), v.eq(t.tc, s.tc)))
    else:
        v.check('type of request', t.fmt_type == T.TlpType.IO_WRITE)
    v.check('request is well formed', t.check())


class Ops:
    """ghost for non-posted operations: records each request when it is issued; its result is taken by contract"""
    def __init__(self, v, f, on_request, result):
        self.v, self.on_request, self.result = v, on_request, result
        v.put(f, 'perform_nonposted_operation', self.perform)

    def perform(self, t, timeout=0, timeout_unit='ns'):
        x = self.on_request(t, timeout, timeout_unit)
        return self.wait(t, x)

    async def wait(self, t, x):
        await self.v.mod('cocotb.triggers').NullTrigger()
        return self.result(t, x)


def mutable_lists(loc):
    return [x for x in loc.values() if type(x) is list]


class Marker(Poison):
    """stands for any number of elements of a list that the current path does not look at"""


class SplitOps(SplitLoop):
    """splitting loop that collects operations in a list, followed by a loop over that list.  One arbitrary iteration of the
    first loop is followed by the iteration of the second loop that handles its operation; the rest of the list is
    represented by markers."""
    def __init__(self, v, fn, n, a0, bits):
        super().__init__(v, fn, n, a0, bits)
        self.after = self.second
        self.before, self.behind = Marker(), Marker()
        self.list = None
        self.chosen = None
        self.done_k = None
        self.collect = None       # hook: prepares the state of the second loop (called at its head)
        self.verify = None        # hook: checks the state after its iteration
        self.inner = None
        self.lc2 = None

    def begin(self, lc, loc, k, a):
        ls = mutable_lists(loc)
        if len(ls) != 1 or ls[0]:
            raise NoSuchState('list of operations')
        self.list = ls[0]
        self.list.append(self.before)
        return super().begin(lc, loc, k, a)

    def again(self, lc, loc):
        v = self.v
        if len(self.list) != 2 or self.list[0] is not self.before:
            raise NoSuchState('list of operations')
        if lc.count == 2:
            self.chosen = self.list[1]
            self.done_k = self.pos
            # leave the loop: the remaining iterations are like this one
            self.list.append(self.behind)
            self.end = self.a0 + self.n
            return locals_for(lc, self.values(self.n, self.end))
        raise NoSuchState('splitting loop goes on past the end')

    def second(self, lc):
        if self.lc2 is None:
            if lc.seq is not self.list and not (isinstance(lc.seq, list) and lc.seq == self.list):
                raise NoSuchState('loop over the operations')
            self.lc2 = lc
            return _Second(self)
        return self.inner(lc) if self.inner is not None else None


class _Second:
    def __init__(self, g):
        self.g = g
        self.given = False

    def head(self, lc, loc):
        g = self.g
        if lc.count == 1:
            g.collect(loc, g.chosen is None)
            return tuple(loc.get(n, None) if n in loc else None for n in lc.site[4]) if lc.site[4] else None
        g.verify(loc)
        g.v.stop()

    def next(self, lc):
        from vc.load import STOP
        if self.g.chosen is None or self.given:
            return STOP
        self.given = True
        return self.g.chosen


@contract('P15', cases=['function', 'rc'], covers=['request'])
def io_write(v, kind):
    """any length: one DW at a time; every operation must be completed successfully or the write fails"""
    v.fork()
    s = Setup(v, kind)
    T = v.mod('core.tlp')
    n = v.int('len', 1, 1 << 32 if v.symbolic else 64)
    a0 = v.int('page', 0, (1 << 20) - 1) << 12 | v.bits('off', 12)
    v.assume(a0 + n <= 1 << 32)
    data = v.bytes('data', n)
    g = Plain(a0)
    to = v.choice('timeout', [0, 9])
    bad = []
    nreq = [0]

    def request(t, timeout, unit):
        v.cover('request')
        nreq[0] += 1
        v.check('timeout is passed on', timeout == to and (unit == 'us' or not to))
        r = legal(v, s, t, g, ('IO_WRITE',), 4, n)
        v.check('payload length is one DW', v.eq(v.len(t.data), 4))
        if v.symbolic:
            payload(v, t, r, data, g.pos)
        else:
            v.check('payload bytes are the caller\'s', bytes(t.data[r.lead:r.lead + r.count]) == data[g.pos:g.pos + r.count])
        step(g, r)

    def result(t, x):
        k = v.choice('outcome', ['ok', 'error', 'timeout']) if v.symbolic or nreq[0] == 1 else 'ok'
        if k == 'timeout':
            bad.append(t)
            return []
        c = T.Tlp()
        c.status = T.CplStatus.SC
        if k == 'error':
            c.status = v.choice('status', [T.CplStatus.UR, T.CplStatus.CRS, T.CplStatus.CA])
            bad.append(t)
        return [c]
    if v.symbolic:
        g = SplitOps(v, 'IoTlpRegion.write', n, a0, 32)
        g.collect = lambda loc, last: None

        def verify(loc):
            v.check('a failed operation fails the write', not bad)
        g.verify = verify
        v.loops = g
    Ops(v, s.f, request, result)
    try:
        v.run(s.f.io_region.write(a0, data, timeout=to, timeout_unit='us'))
        failed = False
    except NoSuchState:
        raise
    except Exception:
        failed = True
    v.check('fails exactly if an operation failed', failed == bool(bad))
    if not failed:
        v.check('every byte is sent', v.eq(g.pos, n))


# ------------------------------------------------------------------------------------------------ P16

READ = ('MEM_READ', 'MEM_READ_64')


def arrays(v, loc):
    if v.symbolic:
        from vc.sym import SymBytes
        return [x for x in loc.values() if type(x) is bytearray or isinstance(x, SymBytes) and x.mutable]
    return []


def data_cpl(v, a, p, e, bl, content, prefix=''):
    """completion with the bytes [p, e) of a read of bl bytes at address a; content: those bytes"""
    T = v.mod('core.tlp')
    c = T.Tlp()
    c.fmt_type = T.TlpType.CPL_DATA
    c.status = T.CplStatus.SC
    c.byte_count = bl - p
    c.lower_address = (a + p) & 0x7f
    lead = (a + p) & 3
    c.length = (lead + (e - p) + 3) // 4
    if v.symbolic:
        from vc.sym import SymBytes
        pad = v.bytes(prefix + 'pad', 8)
        # bytes before and behind the addressed ones are arbitrary
        c.data = SymBytes.make(c.length * 4, lambda i: v.ite(v.And(i >= lead, i < lead + (e - p)),
                                                             content.get(i - lead), pad.get(0)))
    else:
        d = bytes([0x5a] * lead) + bytes(content)
        c.data = bytearray(d + bytes([0xa5] * (-len(d) % 4)))
    return c


def bad_cpl(v, how, prefix=''):
    T = v.mod('core.tlp')
    c = T.Tlp()
    c.fmt_type = T.TlpType.CPL
    c.byte_count = v.int(prefix + 'bc', 1, 4096)
    c.lower_address = v.bits(prefix + 'la', 7)
    c.status = T.CplStatus.SC if how == 'no data' else v.choice(
        prefix + 'status', [T.CplStatus.UR, T.CplStatus.CRS, T.CplStatus.CA])
    return c


HOW = ['data', 'error', 'no data', 'nothing']


class ReadOps(SplitOps):
    """the loop over the operations and its inner loop over the completions of one operation"""
    def __init__(self, v, fn, n, a0, bits, mem):
        super().__init__(v, fn, n, a0, bits)
        self.mem = mem
        self.collect, self.verify = self._collect, self._verify
        self.inner = self._inner
        self.part = None
        self.result = None
        self.bad = []
        self.lc3 = None

    def _collect(self, loc, last):
        v = self.v
        xs = arrays(v, loc)
        if len(xs) != 1 or v.truth(v.eq(v.len(xs[0]), 0)) is not True:
            raise NoSuchState('collected data')
        self.data = xs[0]
        self.base = self.n if last else self.start
        self.data.extend(self.mem[0:self.base])

    def now(self, upto):
        """the collected data is the content up to there (an IO read may carry padding behind the last byte)"""
        v = self.v
        ln = v.len(self.data)
        v.check('collects no more and no less than the bytes read', v.Or(v.eq(ln, upto), v.And(v.eq(upto, self.n), ln >= upto)))
        i = v.havoc_int('i', 0, v.hi(self.n))
        v.check('collects exactly the addressed bytes', v.Implies(i < upto, v.eq(v.byte(self.data, i), v.byte(self.mem, i))))

    def _verify(self, loc):
        v = self.v
        v.check('an operation that failed fails the read', not self.bad)
        self.now(self.start + self.moved)

    def _inner(self, lc):
        if self.lc3 is not None:
            raise NoSuchState('loop over the completions')
        self.lc3 = lc
        return _Inner(self)


class Completions(list):
    """the completions of one operation; notes when they are read other than one at a time from the list itself (an iterator,
    a copy), since the loop contract then does not know where the loop is in them"""
    elsewhere = False

    def __iter__(self):
        self.elsewhere = True
        return super().__iter__()

    def __reversed__(self):
        self.elsewhere = True
        return super().__reversed__()

    def copy(self):
        self.elsewhere = True
        return super().copy()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.elsewhere = True
        return super().__getitem__(i)


class _Inner:
    def __init__(self, g):
        self.g = g

    def head(self, lc, loc):
        g, v = self.g, self.g.v
        bl = g.moved
        if lc.count == 1:
            ms = [x for x in lc.site[4] if x in loc and type(loc[x]) is int and loc[x] == 0]
            if len(ms) != 1:
                raise NoSuchState('progress within one operation')
            self.m = ms[0]
            if g.bad:
                return locals_for(lc, {self.m: 0})
            if not isinstance(g.result, Completions) or g.result.elsewhere:
                raise NoSuchState('completions not taken from the list')
            a = g.from_
            if g.part == 'complete' or g.part is None and bool(v.havoc_bool('finished')):
                # every completion has arrived
                g.data.extend(g.mem[g.base:g.base + bl])
                g.result[:] = []
                return locals_for(lc, {self.m: bl + v.havoc_int('over', 0, 3)})
            if bool(v.havoc_bool('first')):
                p = 0
            else:
                # an RCB boundary within the read; kept in aligned form
                p = 64 * v.havoc_int('rcb', 1, 64) - (a & 63)
                v.assume(p < bl)
                g.data.extend(g.mem[g.base:g.base + p])
            self.p = p
            how = v.choice('next', HOW if g.part is None else [g.part])
            g.result[:] = []
            self.e = None
            if how == 'data':
                if bool(v.havoc_bool('last one')):
                    e = bl
                else:
                    e = 64 * v.havoc_int('rcb2', 1, 64) - (a & 63)
                    v.assume(v.And(p < e, e < bl))
                self.e = e
                g.result.append(data_cpl(v, a, p, e, bl, g.mem[g.base + p:g.base + e], 'x.'))
                g.result.append(Marker())
            elif how != 'nothing':
                g.bad.append(how)
                g.result.append(bad_cpl(v, how, 'x.'))
            else:
                g.bad.append(how)
            return locals_for(lc, {self.m: p})
        if g.bad:
            # a completion without data: the read goes on to find that nothing follows
            if g.result:
                v.check('a failed operation fails the read', False)
            if lc.count > 3:
                v.check('a failed operation fails the read', False)
            return None
        v.aux('the completion was consumed', len(g.result) == 1)
        e = self.e
        g.now(g.base + e)
        v.aux('progress within the operation', v.ite(v.eq(e, bl), loc[self.m] >= bl, v.eq(loc[self.m], e)))
        v.stop()


def concrete_completions(v, a, bl, content, k, bad):
    out, p = [], 0
    j = 0
    while p < bl:
        j += 1
        how = 'data'
        if v.choice('fail%d.%d' % (k, j), [False] * 15 + [True]):
            how = v.choice('how%d.%d' % (k, j), HOW[1:])
        if how != 'data':
            bad.append(how)
            if how != 'nothing':
                out.append(bad_cpl(v, how, 'c%d.%d.' % (k, j)))
            return out
        nb = (bl - p + 63) // 64
        e = min(bl, p + 64 * v.choice('split%d.%d' % (k, j), [1, 2, 3, nb]) - (a + p) % 64)
        out.append(data_cpl(v, a, p, e, bl, content[p:e]))
        p = e
    return out


@contract('P16', cases=MRRS, covers=['request', 'returned', 'failed'], wall=800)
def mem_read(v, case):
    """any length at any address, every read request size, any legal sequence of completions"""
    kind, mrrs, to, part = case
    v.fork()
    s = Setup(v, kind, mrrs=mrrs)
    T = v.mod('core.tlp')
    n = v.int('len', 1, TOP if v.symbolic else 9000)
    a0 = v.int('page', 0, (1 << 52) - 1) << 12 | v.bits('off', 12)
    v.assume(a0 + n <= TOP)
    mem = v.bytes('content', n)
    bad = []
    g = Plain(a0)
    count = [0]
    if v.symbolic:
        g = ReadOps(v, 'MemoryTlpRegion.read', n, a0, 64, mem)
        g.part = part
        v.loops = g
        bad = g.bad

    def request(t, timeout, unit):
        v.cover('request')
        v.check('timeout is passed on', timeout == to and (unit == 'us' or not to))
        r = legal(v, s, t, g, READ, 128 << mrrs, n)
        pos = g.pos
        step(g, r)
        count[0] += 1
        return count[0], pos, r

    def result(t, x):
        if v.symbolic:
            if bool(v.havoc_bool('no completion')):
                g.result = Completions()
                bad.append('nothing')
            else:
                g.result = Completions([Marker()])
            return g.result
        k, pos, r = x
        return concrete_completions(v, r.addr, r.count, mem[pos:pos + r.count], k, bad)
    Ops(v, s.f, request, result)
    kw = dict(attr=s.attr, tc=s.tc, timeout=to, timeout_unit='us')
    try:
        if v.symbolic or kind == 'rc':
            d = v.run(s.f.mem_region.read(a0, n, **kw))
        else:
            d = v.run(s.f.mem_read(a0, n, **kw))
        failed = False
    except NoSuchState:
        raise
    except Exception:
        failed = True
    v.check('fails exactly if an operation failed', failed == bool(bad))
    if not failed:
        v.cover('returned')
        v.check('every byte is requested', v.eq(g.pos, n))
        v.check_bytes('returns the bytes', d, mem)
    else:
        v.cover('failed')


@contract('P16', cases=['function', 'rc'], covers=['request', 'returned', 'failed'])
def io_read(v, kind):
    """any length: one DW at a time, own bytes out of each completion, an error or timeout of any of them fails the read"""
    v.fork()
    s = Setup(v, kind)
    T = v.mod('core.tlp')
    n = v.int('len', 1, 1 << 32 if v.symbolic else 64)
    a0 = v.int('page', 0, (1 << 20) - 1) << 12 | v.bits('off', 12)
    v.assume(a0 + n <= 1 << 32)
    mem = v.bytes('content', n)
    to = v.choice('timeout', [0, 9])
    g = Plain(a0)
    bad = []
    count = [0]
    if v.symbolic:
        g = ReadOps(v, 'IoTlpRegion.read', n, a0, 32, mem)
        v.loops = g
        bad = g.bad

    def request(t, timeout, unit):
        v.cover('request')
        v.check('timeout is passed on', timeout == to and (unit == 'us' or not to))
        r = legal(v, s, t, g, ('IO_READ',), 4, n)
        pos = g.pos
        step(g, r)
        count[0] += 1
        return count[0], pos, r

    def result(t, x):
        k, pos, r = x
        how = v.choice('how%d' % k, (['data'] if v.symbolic else ['data'] * 30) + HOW[1:])
        if how != 'data':
            bad.append(how)
            return [] if how == 'nothing' else [bad_cpl(v, how, 'c%d.' % k)]
        c = data_cpl(v, r.addr, 0, r.count, r.count, mem[pos:pos + r.count], 'c%d.' % k)
        c.byte_count = 4
        c.lower_address = 0
        return [c]
    Ops(v, s.f, request, result)
    kw = dict(timeout=to, timeout_unit='us')
    try:
        if v.symbolic or kind == 'rc':
            d = v.run(s.f.io_region.read(a0, n, **kw))
        else:
            d = v.run(s.f.io_read(a0, n, **kw))
        failed = False
    except NoSuchState:
        raise
    except Exception:
        failed = True
    v.check('fails exactly if an operation failed', failed == bool(bad))
    if not failed:
        v.cover('returned')
        v.check('every byte is requested', v.eq(g.pos, n))
        v.check_bytes('returns the bytes', d, mem)
    else:
        v.cover('failed')


@contract('P16', cases=[WHOLE[1], Thorough(WHOLE[0])],
          covers=['one', 'several', 'failed'], bounded='reads of up to 136 bytes, one or two completions per request')
def mem_read_whole(v, case):
    """the whole operation without loop contract"""
    kind, byte = case
    v.fork()
    s = Setup(v, kind, mrrs=0)
    n = v.int('len', 1, 136)
    a0 = v.int('page', 0, (1 << 52) - 1) << 12 | v.bits('off', 10) << 2 | byte
    v.assume(a0 + n <= TOP)
    mem = v.bytes('content', v.int('content.size', 136, 137))
    g = Plain(a0)
    bad, count = [], [0]

    def request(t, timeout, unit):
        r = legal(v, s, t, g, READ, 128, n)
        x = (count[0], g.pos, r, g.addr)
        step(g, r)
        count[0] += 1
        return x

    def result(t, x):
        k, pos, r, a = x
        how = v.choice('how%d' % k, ['one', 'two', 'error', 'nothing'] if k == 0 else ['one'])
        if how in ('error', 'nothing'):
            bad.append(how)
            return [] if how == 'nothing' else [bad_cpl(v, how, 'c%d.' % k)]
        bl = r.count
        e = 64 - a % 64
        if how == 'two' and bool(e < bl):
            return [data_cpl(v, a, 0, e, bl, mem[pos:pos + e], 'c%d.' % k),
                    data_cpl(v, a, e, bl, bl, mem[pos + e:pos + bl], 'd%d.' % k)]
        return [data_cpl(v, a, 0, bl, bl, mem[pos:pos + bl], 'c%d.' % k)]
    Ops(v, s.f, request, result)
    try:
        d = v.run(s.f.mem_region.read(a0, n, attr=s.attr, tc=s.tc))
        failed = False
    except NoSuchState:
        raise
    except Exception:
        failed = True
    v.check('fails exactly if an operation failed', failed == bool(bad))
    if failed:
        v.cover('failed')
        return
    v.cover('one' if count[0] == 1 else 'several')
    v.check('every byte is requested', v.eq(g.pos, n))
    v.check_bytes('returns the bytes', d, mem[0:n])


@contract('P16', cases=[(k, m) for k in ('function', 'rc') for m in ('mem', 'io')], covers=['m'])
def read_special(v, case):
    """a zero-length read is one request that enables nothing and returns nothing; without bus mastering reads fail"""
    kind, space = case
    v.cover('m')
    T = v.mod('core.tlp')
    s = Setup(v, kind)
    a = v.bits('addr', 64 if space == 'mem' else 32)
    sent, bad = [], []

    def request(t, timeout, unit):
        sent.append(t)

    def result(t, x):
        how = v.choice('how', ['data', 'error', 'nothing'])
        if how != 'data':
            bad.append(how)
            return [] if how == 'nothing' else [bad_cpl(v, how)]
        c = T.Tlp()
        c.fmt_type = T.TlpType.CPL_DATA
        c.status = T.CplStatus.SC
        c.byte_count = 1
        c.lower_address = (a & 0x7c) if space == 'mem' else 0
        if space == 'io':
            c.byte_count = 4
        c.length = 1
        c.data = v.bytes('d', 4)
        return [c]
    Ops(v, s.f, request, result)
    region = s.f.mem_region if space == 'mem' else s.f.io_region
    kw = dict(attr=s.attr, tc=s.tc) if space == 'mem' else {}
    off = bool(v.bool('disabled'))
    if off:
        s.f.bus_master_enable = False
        n = v.choice('len', [0, 1, 5])
        v.check('fails', raises(v, region.read(a, n, **kw)))
        v.check('nothing is sent', not sent)
        return
    try:
        d = v.run(region.read(a, 0, **kw))
        failed = False
    except NoSuchState:
        raise
    except Exception:
        failed = True
    v.check('fails exactly if the operation failed', failed == bool(bad))
    v.check('one request', len(sent) == 1)
    t = sent[0]
    v.check('of one DW', v.eq(t.length, 1))
    v.check('enables nothing', v.And(v.eq(t.first_be, 0), v.eq(t.last_be, 0)))
    v.check('at the address', v.eq(t.address, a - a % 4))
    v.check('requester id is the function', id_eq(v, t.requester_id, s.me))
    if space == 'mem':
        v.check('64-bit header exactly above 4 GB', v.eq(v.truth(t.fmt_type == T.TlpType.MEM_READ_64), a > 0xffffffff))
        v.check('type of request', t.fmt_type in (T.TlpType.MEM_READ, T.TlpType.MEM_READ_64))
        v.check('attributes and traffic class', v.And(v.eq(t.attr, s.attr), v.eq(t.tc, s.tc)))
    else:
        v.check('type of request', t.fmt_type == T.TlpType.IO_READ)
    v.check('request is well formed', t.check())
    if not failed:
        v.check('returns nothing', v.eq(v.len(d), 0))


# ------------------------------------------------------------------------------------------------ word access

WORDS = [('words', 2), ('dwords', 4), ('qwords', 8), ('words', 3), ('byte', 1), ('word', 2), ('dword', 4), ('qword', 8)]


def word_value(v, data, at, ws, order):
    r = 0
    for i in range(ws):
        b = v.byte(data, at + i)
        r = r + (b << (8 * (i if order == 'little' else ws - 1 - i)))
    return r


@contract('P16', cases=[(k, sp) + w for k in ('function', 'rc') for sp in ('mem', 'io') for w in WORDS], covers=['m'],
          bounded='up to 3 words')
def read_words(v, case):
    """the word-wise calls read the bytes of the words at once and convert each with the byte order asked for"""
    kind, space, name, ws = case
    v.cover('m')
    s = Setup(v, kind)
    order = v.choice('order', ['little', 'big'])
    many = name.endswith('s')
    cnt = v.choice('count', [0, 1, 3]) if many else 1
    a = v.bits('addr', 30)
    mem = v.bytes('content', ws * cnt)
    calls = []


    async def base(addr, length, timeout=0, timeout_unit='ns', *rest, **kw):
        calls.append((addr, length, (timeout, timeout_unit) + rest))
        return mem
    v.put(s.f, space + '_read', base)
    kw = dict(timeout=3, timeout_unit='us')
    if space == 'mem':
        kw.update(attr=s.attr, tc=s.tc)
    fn = v.get(s.f, '%s_read_%s' % (space, name))
    if name != 'byte':
        kw['byteorder'] = order
    if name in ('words', 'word'):
        kw['ws'] = ws
    r = v.run(fn(a, cnt, **kw) if many else fn(a, **kw))
    v.check('one read of the whole', len(calls) == 1)
    v.check('at the address, of the length of the words', v.And(v.eq(calls[0][0], a), v.eq(calls[0][1], ws * cnt)))
    v.check('timeout is passed on', calls[0][2][:2] == (3, 'us'))
    if not many:
        r = [r]
    v.check('number of words', len(r) == cnt)
    for i in range(cnt):
        v.check('value of each word', v.eq(r[i], word_value(v, mem, ws * i, ws, 'little' if name == 'byte' else order)))


@contract('P15', cases=[(k, sp) + w for k in ('function', 'rc') for sp in ('mem', 'io') for w in WORDS], covers=['m'],
          bounded='up to 3 words')
def write_words(v, case):
    """the word-wise calls write the bytes of the words, in the byte order asked for, in one write"""
    kind, space, name, ws = case
    v.cover('m')
    s = Setup(v, kind)
    order = v.choice('order', ['little', 'big'])
    many = name.endswith('s')
    cnt = v.choice('count', [0, 1, 3]) if many else 1
    a = v.bits('addr', 30)
    words = [v.bits('w%d' % i, 8 * ws) for i in range(cnt)]
    calls = []

    async def base(addr, data, timeout=0, timeout_unit='ns', *rest, **kw):
        calls.append((addr, data if name == 'byte' else bytes(data) if not v.symbolic else data, (timeout, timeout_unit)))
    v.put(s.f, space + '_write', base)
    kw = dict(timeout=3, timeout_unit='us')
    if space == 'mem':
        kw.update(attr=s.attr, tc=s.tc)
    fn = v.get(s.f, '%s_write_%s' % (space, name))
    if name != 'byte':
        kw['byteorder'] = order
    if name in ('words', 'word'):
        kw['ws'] = ws
    v.run(fn(a, words, **kw) if many else fn(a, words[0], **kw))
    v.check('one write of the whole', len(calls) == 1)
    v.check('at the address', v.eq(calls[0][0], a))
    v.check('timeout is passed on', calls[0][2] == (3, 'us'))
    d = calls[0][1]
    v.check('length of the words', v.eq(v.len(d), ws * cnt))
    if name == 'byte':
        v.check('value', v.eq(d[0], words[0]))
        return
    for i in range(cnt):
        v.check('bytes of each word', v.eq(word_value(v, d, ws * i, ws, order), words[i]))

"""Requests served by the root complex and the memory endpoint: writes and IO (P18), memory reads (P17).
The storage behind them is taken by contract: a read returns the stored bytes, a write stores its bytes at its address
(ghost memory: arbitrary content, ordered log of writes)."""
from vc.reg import contract, Thorough
from vc.contracts._common import four_dw, req_tlp, single_dw, Sink, Fc, Snap, check_cpl, id_eq, mk_id


class Mem:
    """ghost memory: arbitrary bytes; log of the writes"""
    def __init__(self, v, name='mem'):
        self.v = v
        self.cells = {}
        self.src = v.bytes(name, v.int(name + '.size', 0x4000, 0x4001))
        self.origin = None
        self.log = []
        self.reads = []
        self.fail_at = None
        self.ops = 0
        self.covered = True

    def rel(self, addr):
        """position of an address in the arbitrary content (addresses of one contract lie within 4 KB of the first)"""
        if self.origin is None:
            self.origin = addr
        return addr - self.origin + 0x1000

    def old(self, addr):
        return self.v.byte(self.src, self.rel(addr))

    def now(self, addr):
        v = self.v
        r = self.old(addr)
        for a, d in self.log:
            n = v.len(d)
            inside = v.And(a <= addr, addr < a + n)
            if isinstance(n, int) and n == 0:
                continue
            r = v.ite(inside, self.at(d, addr - a, n), r)
        return r

    def at(self, d, i, n):
        v = self.v
        if v.symbolic:
            return v.byte(d, i)
        return d[i] if 0 <= i < n else 0

    def touched(self, addr):
        v = self.v
        r = False
        for a, d in self.log:
            r = v.Or(r, v.And(a <= addr, addr < a + v.len(d)))
        return r

    def _op(self):
        self.ops += 1
        if self.fail_at is not None and self.ops - 1 == self.fail_at:
            raise Exception('storage failure')

    async def read(self, addr, length, **kw):
        self._op()
        v = self.v
        self.rel(addr)
        self.reads.append((addr, length))
        if v.symbolic:
            from vc.sym import SymBytes
            o = self.rel(addr)
            src = self.src
            return SymBytes.make(length, lambda i: v.byte(src, o + i))
        return bytes(self.old(addr + i) for i in range(length))

    async def write(self, addr, data, **kw):
        self._op()
        self.rel(addr)
        self.log.append((addr, data))


class Space(Mem):
    """ghost address space of the root complex: claims what it is told to claim"""
    def __init__(self, v, name):
        super().__init__(v, name)
        self.claimed = True

    def find_regions(self, addr, length=1):
        self.asked = (addr, length)
        return [('region',)] if self.claimed else []

    def register_region(self, *a, **k):
        pass

    def create_pool(self, *a, **k):
        return self


def root(v, mem=None, io=None):
    """root complex whose host bridge records what it is given"""
    R = v.mod('core.rc')
    made = []

    def make():
        rc = R.RootComplex(mem_address_space=mem, io_address_space=io)
        made.append(rc)

    async def go():
        make()
    v.run(go())
    rc = made[0]
    out = Sink()
    v.patch(rc.upstream_bridge, 'upstream_recv', out)
    return rc, out


def endpoint(v, kind, mem, sz):
    """memory endpoint with one region of 2^sz bytes, BAR programmed to an arbitrary base"""
    E = v.mod('core.endpoint')
    f = E.MemoryEndpoint()
    up = Sink()
    f.upstream_tx_handler = up
    me = mk_id(v, v.mod('core.utils'), 'me')
    if kind != 'io':
        v.assume(me.bus != 0)           # (keeps the setter's comparison with the initial ID from forking)
    f.pcie_id = me
    if kind == 'io':
        f.add_io_region(1 << sz, mem.read, mem.write)
        base = v.bits('base', 32 - sz) << sz
        v.run(f.write_config_register(4, base, 0xf))
    elif kind == 'm32':
        f.add_mem_region(1 << sz, mem.read, mem.write)
        base = v.bits('base', 32 - sz) << sz
        v.run(f.write_config_register(4, base, 0xf))
    else:
        f.add_prefetchable_mem_region(1 << sz, mem.read, mem.write)
        base = v.bits('base', 64 - sz) << sz
        v.run(f.write_config_register(4, base & 0xffffffff, 0xf))
        v.run(f.write_config_register(5, base >> 32, 0xf))
    return f, up, base


class Target:
    """completer under contract: ('rc') or ('ep', bar kind, size exponent)"""
    def __init__(self, v, case, io):
        self.v, self.case = v, case
        self.rc = case == 'rc'
        if self.rc:
            self.mem = Space(v, 'mem')
            other = Space(v, 'other')
            self.dev, self.out = root(v, other if io else self.mem, self.mem if io else other)
            self.recv = self.dev.downstream_recv
            self.base = 0
            self.id = None
            self.other = other
        else:
            self.mem = Mem(v, 'mem')
            self.kind, self.sz = case
            self.dev, self.out, self.base = endpoint(v, self.kind, self.mem, self.sz)
            self.recv = self.dev.upstream_recv
            self.id = self.dev.pcie_id
            self.other = None

    def address(self, t, nbytes):
        """constrain a request of nbytes to be claimed; -> storage address of the first DW"""
        v = self.v
        if self.rc:
            return t.address
        off = v.bits('off', self.sz - 2) << 2
        v.assume(off + nbytes <= 1 << self.sz)
        t.address = self.base + off
        if not four_dw(t.fmt_type.name):
            v.assume(t.address < 1 << 32)
        return off

    def sliced(self, t, nbytes):
        """as address(), with the request's address given in parts (page, 128-byte block, 64-byte half, DW): every
        masked part of it is then an exact sum of inputs"""
        v = self.v
        four = four_dw(t.fmt_type.name)
        low = (v.bits('blk', 5) << 7) + (v.bits('half', 1) << 6) + (v.bits('dw', 4) << 2)
        v.assume(low + nbytes <= 0x1000)
        bits = (52 if four else 20) if self.rc else self.sz - 12
        off = low + (v.bits('page', bits) << 12) if bits else low
        t.address = self.base + off
        if not four:
            v.assume(t.address < 1 << 32)
        return off

    def unclaim(self, t):
        v = self.v
        if self.rc:
            self.mem.claimed = False
        else:
            v.assume(v.Or(t.address < self.base, t.address >= self.base + (1 << self.sz)))


EPM = [('m32', 12), ('m64', 16)]
EPMT = [Thorough(('m32', 7)), Thorough(('m64', 32)), Thorough(('m64', 12))]


def no4k(v, t):
    v.assume((t.address & 0xfff) + t.length * 4 <= 0x1000)


BEQ = [('rc', 'MEM_WRITE_64'), (('m32', 12), 'MEM_WRITE')]
ALLW = [(w, k) for w in ['rc'] + EPM + [c.value for c in EPMT] for k in ('MEM_WRITE', 'MEM_WRITE_64')]


@contract('P18', cases=[c + (k,) for c in BEQ for k in range(4)] +
          [Thorough(c + (k,)) for c in ALLW if c not in BEQ for k in range(4)] +
          [c + ('full',) for c in ALLW], covers=['one', 'more'])
def mem_write(v, case):
    """requires a claimed memory write of 1..1024 DW with any byte enables.  ensures that afterwards every storage
    byte is the payload byte where enabled and its old value everywhere else, and that nothing is sent"""
    where, kind, be = case
    g = Target(v, where, False)
    t = req_tlp(v, kind)
    if be == 'full':
        t.first_be = 0xf
        t.last_be = v.ite(v.eq(t.length, 1), 0, 0xf)
    else:
        v.assume((t.first_be & 3) == be)
    v.assume(v.Implies(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    a0 = g.address(t, t.length * 4)
    no4k(v, t)
    t.data = v.bytes('payload', t.length * 4)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    n = s.length * 4
    v.cover('one' if v.eq(s.length, 1) else 'more')
    v.check('memory writes get no completion', not g.out.sent)
    v.check('credits are released once', fc.n == 1)
    g.mem.rel(a0)
    d = v.int('probe', -4096, 8191)
    p = a0 + d
    en = v.And(d >= 0, d < n, v.truth(v.ite(d < 4, s.first_be >> (d & 3) & 1,
                                            v.ite(d >= n - 4, s.last_be >> (d & 3) & 1, 1))))
    touched = g.mem.touched(p)
    v.check('exactly the enabled bytes are touched', v.eq(touched, en))
    v.check('enabled bytes are stored', v.Implies(en, v.eq(g.mem.now(p), v.byte(s.data, d) if v.symbolic or en else 0)))
    if g.other is not None:
        v.check('the other address space is not touched', not g.other.log and not g.other.reads)


@contract('P18', cases=['rc', ('m32', 12), ('m64', 16), ('io', 5)], covers=['m'])
def mem_write_unclaimed(v, where):
    """an unclaimed memory write is dropped silently"""
    g = Target(v, where, False)
    t = req_tlp(v, v.choice('kind', ['MEM_WRITE', 'MEM_WRITE_64']))
    v.assume(v.Implies(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    if where != ('io', 5):
        g.unclaim(t)
    no4k(v, t)
    t.data = v.bytes('payload', t.length * 4)
    fc = Fc(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('nothing is stored', not g.mem.log)
    v.check('nothing is sent', not g.out.sent)
    v.check('credits are released once', fc.n == 1)


@contract('P18', cases=['rc', ('io', 8), ('io', 2)], covers=['m'])
def io_write(v, where):
    """ensures exactly the enabled bytes are stored and exactly one successful completion is sent"""
    T = v.mod('core.tlp')
    g = Target(v, where, True)
    t = single_dw(v, 'IO_WRITE')
    a0 = g.address(t, 4)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('exactly one completion', len(g.out.sent) == 1)
    check_cpl(v, g.out.sent[0], s, T.CplStatus.SC, g.id)
    v.check('credits are released once', fc.n == 1)
    g.mem.rel(a0)
    d = v.int('probe', -16, 31)
    en = v.And(d >= 0, d < 4, v.truth(s.first_be >> (d & 3) & 1))
    if en:
        v.check('enabled bytes are stored', v.And(g.mem.touched(a0 + d), v.eq(g.mem.now(a0 + d), v.byte(s.data, d))))
    else:
        v.check('other bytes are not touched', v.Not(g.mem.touched(a0 + d)))


@contract('P18', cases=['rc', ('io', 8), ('io', 2)], covers=['m'])
def io_read(v, where):
    """ensures one successful completion whose enabled lanes carry the stored bytes"""
    T = v.mod('core.tlp')
    g = Target(v, where, True)
    t = single_dw(v, 'IO_READ')
    a0 = g.address(t, 4)
    g.mem.rel(a0)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('exactly one completion', len(g.out.sent) == 1)
    c = g.out.sent[0]
    v.check('completion with data', c.fmt_type == T.TlpType.CPL_DATA)
    v.check('one DW', v.And(v.eq(c.length, 1), v.eq(v.len(c.get_data()), 4)))
    check_cpl(v, c, s, T.CplStatus.SC, g.id, c.get_data(), byte_count=4)
    v.check('credits are released once', fc.n == 1)
    for k in range(4):
        v.check('enabled lanes carry the stored bytes',
                v.Implies(v.truth(s.first_be >> k & 1), v.eq(v.byte(c.get_data(), k), g.mem.old(a0 + k))))
    v.check('nothing is stored', not g.mem.log)
    for a, n in g.mem.reads:
        for k in range(4):
            # reads touch enabled bytes only (side effects of reads)
            v.check('only enabled bytes are read', v.Or(v.Not(v.And(a <= a0 + k, a0 + k < a + n)),
                                                        v.truth(s.first_be >> k & 1)))
        v.check('only the addressed DW is read', v.And(a >= a0, a + n <= a0 + 4))


@contract('P18', cases=[(w, k) for w in ('rc', ('io', 8), ('m32', 12)) for k in ('IO_READ', 'IO_WRITE')], covers=['m'])
def io_unclaimed(v, case):
    """an unclaimed IO request gets one UR and has no effect"""
    where, kind = case
    T = v.mod('core.tlp')
    g = Target(v, where, True)
    t = single_dw(v, kind)
    if where != ('m32', 12):
        g.unclaim(t)
    no4k(v, t)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('exactly one completion', len(g.out.sent) == 1)
    check_cpl(v, g.out.sent[0], s, T.CplStatus.UR, g.id)
    v.check('credits are released once', fc.n == 1)
    v.check('no access', not g.mem.log and not g.mem.reads)


@contract('P18', cases=['IO_READ', 'IO_WRITE'], covers=['fails', 'ok'])
def io_failing(v, kind):
    """root complex: an IO request whose access fails (at any of its accesses) gets exactly one completer abort"""
    T = v.mod('core.tlp')
    g = Target(v, 'rc', True)
    t = single_dw(v, kind)
    g.mem.fail_at = v.choice('fail at access', [0, 1])
    s = Snap(t)
    v.run(g.recv(t))
    v.check('exactly one completion', len(g.out.sent) == 1)
    if g.mem.ops > g.mem.fail_at:
        v.cover('fails')
        check_cpl(v, g.out.sent[0], s, T.CplStatus.CA)
    else:
        v.cover('ok')
        v.check('successful', g.out.sent[0].status == T.CplStatus.SC)


# ---------------------------------------------------------------- P17 memory reads

class Completer:
    """ghost receiver of the completions of one memory read: checks each against what is still to be delivered"""
    def __init__(self, v, s, cid, mps, rcb, data_at, probe, every):
        self.v, self.s, self.cid, self.mps, self.rcb, self.data_at, self.every = v, s, cid, mps, rcb, data_at, every
        fb, lb = s.first_be, s.last_be
        one = v.eq(s.length, 1)
        self.fo = v.fix(v.ite(fb & 1, 0, v.ite(fb & 2, 1, v.ite(fb & 4, 2, v.ite(fb & 8, 3, 0)))))
        e = v.ite(one, fb, lb)
        tail = v.fix(v.ite(e & 8, 0, v.ite(e & 4, 1, v.ite(e & 2, 2, 3))))
        self.total = s.length * 4 - self.fo - tail
        self.m = 0                  # DWs delivered
        self.k = 0
        self.d = probe
        self.seen = False

    async def __call__(self, c):
        v, s, m = self.v, self.s, self.m
        T = v.mod('core.tlp')
        self.k += 1
        v.check('nothing is sent after the last completion', m < s.length)
        v.check('completion with data', c.fmt_type == T.TlpType.CPL_DATA)
        v.check('completion status', c.status == T.CplStatus.SC)
        v.check('completion carries the requester id', id_eq(v, c.requester_id, s.requester_id))
        v.check('completion carries the tag', v.eq(c.tag, s.tag))
        v.check('completion carries class and attributes', v.And(v.eq(c.tc, s.tc), v.eq(c.attr, s.attr)))
        if self.cid is not None:
            v.check('completer id', id_eq(v, c.completer_id, self.cid))
        v.check('length is positive', c.length >= 1)
        v.check('payload matches length', v.eq(v.len(c.get_data()), c.length * 4))
        v.check('maximum payload size', c.length * 4 <= self.mps)
        v.check('no more than requested', m + c.length <= s.length)
        sent = 0 if self.k == 1 else m * 4 - self.fo
        v.check('byte count', v.eq(c.byte_count, self.total - sent))
        v.check('lower address', v.eq(c.lower_address, (s.address + (self.fo if self.k == 1 else m * 4)) & 0x7f))
        d = self.d
        here = v.And(d >= m * 4, d < (m + c.length) * 4)
        if v.symbolic or here:
            i = d - m * 4
            v.check('payload bytes', v.Implies(here, v.eq(v.byte(c.get_data(), i), self.data_at(d))))
        m = m + c.length
        if self.every:
            v.check('split on every boundary', v.eq((s.address + (m - 1) * 4) // self.rcb,
                                                    (s.address + self.m * 4) // self.rcb))
        self.m = m
        if m < s.length:
            v.check('splits only on the read completion boundary', v.eq((s.address + m * 4) % self.rcb, 0))
        v.check('completion is well formed', c.check())


RD = ['MEM_READ', 'MEM_READ_64']
# (completer, max payload size, read completion boundary, split on every boundary: first byte offset or None, type)
P17C = [(('ep', 'm64', 16), p, 128, None, k) for p in (0, 1, 5) for k in RD] + \
       [(('rc',), p, r, None, k) for p, r in ((0, 64), (0, 128), (3, 64)) for k in RD] + \
       [(('rc',), 0, 128, o, 'MEM_READ') for o in range(4)] + \
       [(('rc', 'up to 256 DW'), 0, 64, o, 'MEM_READ_64') for o in range(4)]
P17T = [(('ep', 'm32', 12), p, 128, None, 'MEM_READ') for p in range(6)] + \
       [(('ep', 'm64', 16), p, 128, None, k) for p in (2, 3, 4) for k in RD] + \
       [(('rc',), p, r, None, k) for p in range(6) for r in (64, 128) for k in RD] + \
       [(('rc',), p, r, o, 'MEM_READ_64') for p in range(6) for r in (64, 128) for o in range(4)]


@contract('P17', cases=P17C + [Thorough(c) for c in P17T if c not in P17C], covers=['single'])
def mem_read(v, case):
    """requires a claimed memory read of 1..1024 DW that stays within a 4 KB page.  ensures for each completion in turn:
    identity, status, byte count, lower address, length, payload, boundary; and that the last one completes it"""
    where, mps, rcb, every, kind = case
    U = v.mod('core.utils')
    g = Target(v, 'rc' if where[0] == 'rc' else where[1:], False)
    if g.rc:
        g.dev.max_payload_size = mps
        g.dev.read_completion_boundary = rcb == 128
        g.dev.split_on_all_rcb = every is not None
        cid = None
    else:
        g.dev.pcie_cap.max_payload_size = mps
        cid = g.id
    t = req_tlp(v, kind)
    if where[1:] == ('up to 256 DW',):
        v.assume(t.length <= 256)
    v.assume(v.Implies(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    v.assume(v.Implies(t.length > 1, v.And(t.last_be != 0, t.first_be != 0)))
    v.assume(t.first_be != 0 if every is None else t.first_be & (2 << every) - 1 == 1 << every)
    v.fork()
    a0 = g.sliced(t, t.length * 4)
    g.mem.rel(a0)
    fc = Fc(t)
    s = Snap(t)
    d = v.int('probe', 0, 4095)
    rx = Completer(v, s, cid, 128 << mps, rcb, lambda d: g.mem.old(a0 + d), d, every is not None)
    if g.rc:
        v.patch(g.dev.upstream_bridge, 'upstream_recv', rx)
    else:
        g.dev.upstream_tx_handler = rx
    v.run(g.recv(t))
    v.cover('single' if rx.k == 1 else 'split')
    v.check('the request is completed', v.eq(rx.m, s.length))
    v.check('credits are released once', fc.n == 1)
    v.check('nothing is stored', not g.mem.log)
    for a, n in g.mem.reads:
        v.check('only requested storage is read', v.And(a >= a0, a + n <= a0 + s.length * 4))


@contract('P17', cases=[(w, k) for w in ('rc', ('m64', 16), ('m32', 12)) for k in RD], covers=['m'])
def mem_read_zero(v, case):
    """a zero-length read is answered by one completion with one DW, byte count 1 and the DW's lower address"""
    where, kind = case
    T = v.mod('core.tlp')
    g = Target(v, where, False)
    t = req_tlp(v, kind)
    v.assume(v.And(v.eq(t.length, 1), v.eq(t.first_be, 0), v.eq(t.last_be, 0)))
    g.address(t, 4)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('exactly one completion', len(g.out.sent) == 1)
    c = g.out.sent[0]
    check_cpl(v, c, s, T.CplStatus.SC, g.id, c.get_data(), byte_count=1, lower=s.address & 0x7c)
    v.check('one DW', v.eq(c.length, 1))
    v.check('credits are released once', fc.n == 1)


@contract('P17', cases=[(w, k) for w in ('rc', ('m64', 16), ('m32', 12), ('io', 5)) for k in RD], covers=['m'])
def mem_read_unclaimed(v, case):
    """an unclaimed memory read gets exactly one Unsupported Request"""
    where, kind = case
    T = v.mod('core.tlp')
    g = Target(v, where, False)
    t = req_tlp(v, kind)
    v.assume(v.Implies(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    if where != ('io', 5):
        g.unclaim(t)
    no4k(v, t)
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('m')
    v.check('exactly one completion', len(g.out.sent) == 1)
    check_cpl(v, g.out.sent[0], s, T.CplStatus.UR, g.id)
    v.check('credits are released once', fc.n == 1)
    v.check('no access', not g.mem.log and not g.mem.reads)


@contract('P17', cases=RD, covers=['fails'])
def mem_read_failing(v, kind):
    """root complex: a read whose access fails gets exactly one completer abort"""
    T = v.mod('core.tlp')
    g = Target(v, 'rc', False)
    t = req_tlp(v, kind)
    v.assume(v.Implies(v.eq(t.length, 1), v.eq(t.last_be, 0)))
    no4k(v, t)
    g.mem.fail_at = 0
    fc = Fc(t)
    s = Snap(t)
    v.run(g.recv(t))
    v.cover('fails')
    v.check('exactly one completion', len(g.out.sent) == 1)
    check_cpl(v, g.out.sent[0], s, T.CplStatus.CA)
    v.check('credits are released once', fc.n == 1)

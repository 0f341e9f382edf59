"""Routing (P14): bridges, switches, multi-function devices.  Windows and bus ranges are programmed through the
configuration registers (their decoding is P10); BAR windows through P08's window lemma."""
from vc.reg import contract, Thorough
from vc.contracts.c_bar import setup, window
from vc.contracts._common import sym_tlp, Fc, Sink, Snap, same_packet, check_cpl, id_eq, idv, mk_id, has_data

TYPES = ['CFG_READ_0', 'CFG_WRITE_0', 'CFG_READ_1', 'CFG_WRITE_1', 'CPL', 'CPL_DATA', 'CPL_LOCKED_DATA', 'IO_READ',
         'IO_WRITE', 'MEM_READ', 'MEM_READ_64', 'MEM_WRITE', 'MEM_WRITE_64']
MEM = ('MEM_READ', 'MEM_READ_64', 'MEM_WRITE', 'MEM_WRITE_64')
CFG0 = ('CFG_READ_0', 'CFG_WRITE_0')
CFG1 = ('CFG_READ_1', 'CFG_WRITE_1')
NOREPLY = ('CPL', 'CPL_DATA', 'CPL_LOCKED_DATA', 'MEM_WRITE', 'MEM_WRITE_64')
TAG = 3


def packet(v, tname, prefix=''):
    """an arbitrary well-formed packet of the type, one payload DW if it has one"""
    T = v.mod('core.tlp')
    t = sym_tlp(v, tname, prefix)
    t.length = 1
    if tname.startswith('CPL'):
        t.status = T.CplStatus.SC
        t.tag = TAG
        if not has_data(tname):
            t.length = 0
    elif tname.startswith(('CFG', 'IO')):
        t.last_be, t.tc, t.attr, t.at = 0, T.TlpTc(0), T.TlpAttr(0), T.TlpAt(0)
    else:
        t.last_be = 0
    if has_data(tname):
        t.data = v.bytes(prefix + 'data', 4, True)
    return t


class Win:
    """what a bridge decodes, as programmed"""

    def __init__(self, v, f, name):
        self.v, self.f = v, f
        r = {k: v.bits('%s.r%d' % (name, k), 32) for k in (6, 7, 8, 9, 10, 11, 12)}
        for k, x in r.items():
            v.run(f.write_config_register(k, x, 0xf), fresh=False)
        self.sec, self.sub = r[6] >> 8 & 0xff, r[6] >> 16 & 0xff
        self.io = ((r[7] & 0xf0) << 8 | (r[12] & 0xffff) << 16, r[7] & 0xf000 | 0xfff | r[12] & 0xffff0000)
        self.mem = ((r[8] & 0xfff0) << 16, r[8] & 0xfff00000 | 0xfffff)
        self.pf = ((r[9] & 0xfff0) << 16 | r[10] << 32, r[9] & 0xfff00000 | 0xfffff | r[11] << 32)

    @classmethod
    def direct(cls, v, f, name):
        """the decoded ranges set directly (any ranges, which includes all that can be programmed)"""
        w = cls.__new__(cls)
        w.v, w.f = v, f
        w.sec, w.sub = v.bits(name + '.sec', 8), v.bits(name + '.sub', 8)
        w.io = v.bits(name + '.iob', 32), v.bits(name + '.iol', 32)
        w.mem = v.bits(name + '.mb', 32), v.bits(name + '.ml', 32)
        w.pf = v.bits(name + '.pb', 64), v.bits(name + '.pl', 64)
        for n, x in (('sec_bus_num', w.sec), ('sub_bus_num', w.sub), ('io_base', w.io[0]), ('io_limit', w.io[1]),
                     ('mem_base', w.mem[0]), ('mem_limit', w.mem[1]), ('prefetchable_mem_base', w.pf[0]),
                     ('prefetchable_mem_limit', w.pf[1])):
            v.put(f, n, x)
        return w

    def has_bus(self, i):
        """the bus range contains the ID; 0:0.0 is the root complex and is never below a bridge"""
        v = self.v
        return v.And(self.sec <= i.bus, i.bus <= self.sub, v.Not(v.eq(idv(i), 0)))

    def has(self, t, tname):
        v = self.v
        if tname in CFG0:
            return False
        if tname in CFG1:
            return self.has_bus(t.completer_id)
        if tname.startswith('CPL'):
            return self.has_bus(t.requester_id)
        if tname.startswith('IO'):
            return v.And(self.io[0] <= t.address, t.address <= self.io[1])
        return v.Or(v.And(self.mem[0] <= t.address, t.address <= self.mem[1]),
                    v.And(self.pf[0] <= t.address, t.address <= self.pf[1]))


class Handled:
    """ghost: packets the function itself takes in"""

    def __init__(self, v, f):
        T = v.mod('core.tlp')
        self.v, self.f = v, f
        self.log = []
        for n in TYPES:
            if not n.startswith('CPL'):
                f.register_rx_tlp_handler(T.TlpType[n], self.take)
        v.get(f, 'tag_active')[TAG] = True

    async def take(self, t):
        self.log.append(t)

    def count(self):
        return len(self.log) + v_get(self.v, self.f)


def v_get(v, f):
    return v.get(f, 'rx_cpl_queues')[TAG].qsize()


def own(v, f, bars, t, tname, me):
    if tname in CFG0:
        return v.And(v.eq(t.completer_id.device, me.device), v.eq(t.completer_id.function, me.function))
    if tname in CFG1:
        return False
    if tname.startswith('CPL'):
        return id_eq(v, t.requester_id, me)
    io = tname.startswith('IO')
    return v.Or(False, *[window(t.address, b, s) for i, k, b, s in bars if (k == 'io') == io])


BR = ['Bridge', 'SwitchUpstreamPort', 'SwitchDownstreamPort', 'RootPort', 'HostBridge']
BARS = {'Bridge': [[], ['io', 'm32'], ['m64']], 'HostBridge': [[]]}


def bridge(v, cls, tname):
    v.merge()
    B = v.mod('core.bridge')
    v.mod('cocotb').reset()
    f = getattr(B, cls)()
    f.pcie_id = mk_id(v, v.mod('core.utils'), 'me')
    bars = setup(v, f, v.choice('bars', BARS.get(cls, [[], ['none', 'm32']]))) if tname in MEM or tname[:2] == 'IO' else []
    f.upstream_tx_handler, f.downstream_tx_handler = Sink(), Sink()
    return f, bars, f.upstream_tx_handler, f.downstream_tx_handler


@contract('P14', cases=[(c, t) for c in BR for t in TYPES], covers=['nowhere'])
def bridge_from_primary(v, case):
    """upstream_recv, any programming, any packet.  ensures: taken in iff it targets the bridge; else passed down once,
    unchanged but for type 1 -> type 0 on the secondary bus, iff its target lies behind the bridge; else credits
    released once and exactly one UR for a non-posted request, nothing for the others"""
    cls, tname = case
    f, bars, up, down = bridge(v, cls, tname)
    w = Win(v, f, 'w')
    h = Handled(v, f)
    T = v.mod('core.tlp')
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    me = f.pcie_id
    mine, below = own(v, f, bars, t, tname, me), w.has(t, tname)
    v.run(f.upstream_recv(t))
    if mine:
        v.cover('own')
        v.check('taken in by the bridge, once', h.count() == 1)
        v.check('and passed on nowhere', not up.sent and not down.sent)
    elif below:
        v.cover('below')
        v.check('passed down exactly once', len(down.sent) == 1)
        v.check('and nowhere else', v.And(not up.sent, h.count() == 0))
        v.check('credits stay with the packet', fc.n == 0)
        o = down.sent[0]
        same_packet(v, o, s, but=('fmt_type',))
        if tname in CFG1:
            local = v.eq(s.completer_id.bus, w.sec)
            if local:
                v.check('type 0 on the secondary bus', o.fmt_type == T.TlpType[tname[:-1] + '0'])
            else:
                v.check('type 1 beyond the secondary bus', o.fmt_type == T.TlpType[tname])
        else:
            v.check('same type', o.fmt_type == T.TlpType[tname])
    else:
        v.cover('nowhere')
        unclaimed(v, tname, s, fc, up, me)
        v.check('not passed on', v.And(not down.sent, h.count() == 0))


def unclaimed(v, tname, s, fc, back, me=None):
    T = v.mod('core.tlp')
    v.check('credits of the unclaimed packet are released once', fc.n == 1)
    if tname in NOREPLY:
        v.check('no answer to a completion or posted request', not back.sent)
    else:
        v.check('exactly one answer', len(back.sent) == 1)
        check_cpl(v, back.sent[0], s, T.CplStatus.UR, me)


@contract('P14', cases=[(c, t) for c in BR for t in TYPES], covers=['m'])
def bridge_from_secondary(v, case):
    """downstream_recv.  ensures: a configuration request is answered with one UR; a packet for the bridge itself is taken
    in; one whose target is not behind the bridge (or any, for the root) is passed up once, unchanged; one that would
    go back where it came from is dropped with its credits released, and answered with one UR if it is non-posted"""
    cls, tname = case
    f, bars, up, down = bridge(v, cls, tname)
    w = Win(v, f, 'w')
    h = Handled(v, f)
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    me = f.pcie_id
    root = cls == 'HostBridge'
    cfg = tname.startswith('CFG')
    mine = False if root or cfg else own(v, f, bars, t, tname, me)
    back = False if root else w.has(t, tname)
    v.run(f.downstream_recv(t))
    v.cover('m')
    if cfg:
        unclaimed(v, tname, s, fc, down, me)
        v.check('not passed on', v.And(not up.sent, h.count() == 0))
    elif mine:
        v.check('taken in by the bridge, once', h.count() == 1)
        v.check('and passed on nowhere', not up.sent and not down.sent)
    elif back:
        unclaimed(v, tname, s, fc, down, me)
        v.check('not passed on', v.And(not up.sent, h.count() == 0))
    else:
        v.check('passed up exactly once', len(up.sent) == 1)
        v.check('and nowhere else', v.And(not down.sent, h.count() == 0))
        v.check('credits stay with the packet', fc.n == 0)
        same_packet(v, up.sent[0], s)


@contract('P14', cases=[(c, t) for c in BR for t in TYPES if t[:3] != 'CFG'], covers=['m'])
def bridge_own_traffic(v, case):
    """what the bridge function itself sends goes down iff its target lies behind the bridge, else up; once, unchanged"""
    cls, tname = case
    f, bars, up, down = bridge(v, cls, tname)
    w = Win(v, f, 'w')
    t = packet(v, tname)
    s = Snap(t)
    below = w.has(t, tname)
    v.run(f.send(t))
    v.cover('m')
    to, other = (down, up) if below else (up, down)
    v.check('sent exactly once', len(to.sent) == 1)
    v.check('in one direction', not other.sent)
    same_packet(v, to.sent[0], s)


# ------------------------------------------------------------------ switch

class Net:
    """a real switch with n downstream ports, arbitrarily programmed; ends recorded"""

    def __init__(self, v, n):
        v.merge()
        S = v.mod('core.switch')
        u = v.mod('core.utils')
        self.v = v
        self.sim = v.mod('cocotb').reset()
        self.sw = S.Switch()
        self.br = [self.sw.upstream_bridge] + [self.sw.make_port() for _ in range(n)]
        self.ends = [Sink() for _ in self.br]
        self.br[0].upstream_tx_handler = self.ends[0]
        for b, e in zip(self.br[1:], self.ends[1:]):
            b.downstream_tx_handler = e
        self.win = [Win.direct(v, b, 'w%d' % i) for i, b in enumerate(self.br)]
        self.br[0].pcie_id = mk_id(v, u, 'up')
        bus = v.bits('internal', 8)
        for i, b in enumerate(self.br[1:]):
            b.pcie_id = u.PcieId(bus, 1 + i, 0)
        self.h = [Handled(v, b) for b in self.br]
        self.sim.run_ready()

    def inject(self, port, t):
        b = self.br[port]
        self.v.mod('cocotb').start_soon(b.upstream_recv(t) if port == 0 else b.downstream_recv(t))
        self.sim.run_ready()

    def places(self):
        """(place, packet) for everything that came out anywhere"""
        out = []
        for i, e in enumerate(self.ends):
            out += [(('end', i), t) for t in e.sent]
        for i, h in enumerate(self.h):
            out += [(('own', i), t) for t in h.log] + [(('own', i), None)] * v_get(self.v, self.br[i])
        return out


def switch_dest(v, net, src, t, tname):
    """{place: condition}: where a packet injected at port src may go according to the programming (several when the
    programming overlaps)"""
    W, B = net.win, net.br
    ids = [b.pcie_id for b in B]
    n = len(B)
    cfg1, cfg0 = tname in CFG1, tname in CFG0
    cpl = tname.startswith('CPL')

    def mine(i, as0=False):
        if cfg0 or as0:
            return v.And(v.eq(t.completer_id.device, ids[i].device), v.eq(t.completer_id.function, ids[i].function))
        return id_eq(v, t.requester_id, ids[i]) if cpl else False
    d = {}
    if src == 0:
        d[('own', 0)] = mine(0)
        inside = v.And(v.Not(mine(0)), W[0].has(t, tname))
        local = v.And(cfg1, v.eq(t.completer_id.bus, W[0].sec)) if cfg1 else False
        for i in range(1, n):
            # type 1 on the switch's internal bus is type 0 there: for the ports themselves
            d[('own', i)] = v.And(inside, v.Or(v.And(local, mine(i, True)), v.And(v.Not(local), mine(i))))
            d[('end', i)] = v.And(inside, v.Not(local), v.Not(mine(i)), W[i].has(t, tname))
    else:
        cfg = cfg0 or cfg1
        d[('own', src)] = v.And(not cfg, mine(src))
        out = v.And(not cfg, v.Not(mine(src)), v.Not(W[src].has(t, tname)))
        d[('own', 0)] = v.And(out, mine(0))
        d[('end', 0)] = v.And(out, v.Not(mine(0)), v.Not(W[0].has(t, tname)))
        for i in range(1, n):
            if i != src:
                d[('own', i)] = v.And(out, mine(i))
                d[('end', i)] = v.And(out, v.Not(mine(i)), W[i].has(t, tname))
    return d


@contract('P14', cases=[(n, p, t) for n in (1, 2) for p in range(n + 1) for t in TYPES] +
          [(3, 2, t) for t in ('MEM_READ', 'CPL_DATA')] +
          [Thorough((3, p, t)) for p in (0, 1, 3) for t in TYPES],
          covers=['m'], wall=600, bounded='switches with 1-3 downstream ports (any number of ports: switch_any_ports)')
def switch_routing(v, case):
    """one packet, any programming of all bridges.  ensures: exactly one destination, one that the programming allows; or,
    if there is none, credits released once and one UR back out of the port it came from for a non-posted request"""
    n, src, tname = case
    T = v.mod('core.tlp')
    net = Net(v, n)
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    # the requester is on the side the request came from
    r = t.requester_id
    if not tname.startswith('CPL'):
        v.assume(v.Not(v.Or(*[id_eq(v, r, b.pcie_id) for b in net.br])))
        if src:
            v.assume(v.And(net.win[src].has_bus(r), net.win[0].has_bus(r)))
            v.assume(v.Not(v.Or(False, *[net.win[i].has_bus(r) for i in range(1, n + 1) if i != src])))
        else:
            v.assume(v.Not(v.Or(*[w.has_bus(r) for w in net.win])))
    d = switch_dest(v, net, src, t, tname)
    net.inject(src, t)
    v.cover('m')
    got = net.places()
    v.check('at most one packet comes out', len(got) <= 1)
    claimed = v.Or(*d.values())
    if claimed:
        v.check('a claimed packet goes somewhere', len(got) == 1)
        p, o = got[0]
        v.check('to a destination its target selects', d.get(p, False))
        if o is not None:
            same_packet(v, o, s, but=('fmt_type',))
            if tname in CFG1:
                bus = net.win[0].sec if p == ('own', p[1]) else net.win[p[1]].sec
                v.check('type 0 exactly on the target bus',
                        v.eq(o.fmt_type == T.TlpType[tname[:-1] + '0'], v.truth(v.eq(s.completer_id.bus, bus))))
            else:
                v.check('type unchanged', o.fmt_type == T.TlpType[tname])
    else:
        v.check('credits of the unclaimed packet are released once', fc.n == 1)
        if tname in NOREPLY:
            v.check('no answer to a completion or posted request', not got)
        else:
            v.check('exactly one answer', len(got) == 1)
            v.check('back out of the port it came from', got[0][0] == ('end', src))
            check_cpl(v, got[0][1], s, T.CplStatus.UR)


class FakePort:
    """another switch port, abstractly: whether it claims the packet is arbitrary"""

    def __init__(self, v, upstream, name, log):
        self.upstream = upstream
        self.own, self.sec = v.bool(name + '.own'), v.bool(name + '.sec')
        self.bridge = self
        self.rx_event = v.mod('cocotb.triggers').Event()
        self.queue = self
        self.log = log
        self.claims = v.Or(self.own, v.Not(self.sec) if upstream else self.sec)

    def match_tlp(self, t):
        return self.own

    def match_tlp_secondary(self, t):
        return self.sec

    async def put(self, t):
        self.log.append((self, t))

    def put_nowait(self, t):
        self.log.append((self, t))


@contract('P14', cases=['MEM_READ', 'CPL', 'MEM_WRITE', 'CFG_READ_1'], covers=['sent', 'dropped'],
          bounded='up to 5 other ports; the loop body is the same for each of them')
def switch_any_ports(v, tname):
    """the routing step over an arbitrary list of other ports with arbitrary claims: the packet goes to the queue of exactly
    one claiming port (which is woken), or is dropped/answered when none claims it"""
    T = v.mod('core.tlp')
    S = v.mod('core.switch')
    sim = v.mod('cocotb').reset()
    sw = S.Switch()
    port = v.get(sw, 'upstream_port')
    v.get(port, 'tx_queues')
    log = []
    n = v.choice('ports', list(range(6)))
    upat = v.choice('up', [None] + list(range(n)))
    fs = [FakePort(v, i == upat, 'p%d' % i, log) for i in range(n)]
    port.tx_queues = [(f, f) for f in fs]
    back = Sink()
    port.tx_handler = back
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    sim.run_ready()
    port.ingress_queue.put_nowait(t)
    sim.run_ready()
    if v.Or(False, *[f.claims for f in fs]):
        v.cover('sent')
        v.check('queued exactly once', len(log) == 1)
        v.check('for a port that claims it', log[0][0].claims)
        v.check('whose arbiter is woken', log[0][0].rx_event.is_set())
        v.check('no answer', not back.sent)
        v.check('credits stay with the packet', fc.n == 0)
    else:
        v.cover('dropped')
        v.check('not queued', not log)
        unclaimed(v, tname, s, fc, back)
    # and the next one is routed as well
    k = len(log)
    t2 = packet(v, 'MEM_WRITE', 'second.')
    fc2 = Fc(t2)
    port.ingress_queue.put_nowait(t2)
    sim.run_ready()
    v.check('the next packet is routed', len(log) - k + fc2.n == 1)


@contract('P14', cases=[(k, o) for k in ('same', 'cross', 'merge', 'updown') for o in range(3)], covers=['m'],
          bounded='four packets, two downstream ports, all positions of a stall of the receiving side')
def switch_order(v, case):
    """packets queued while a receiver is blocked come out later, each exactly once, in order per source"""
    kind, stall = case
    net = Net(v, 2)
    for i in (1, 2):
        v.assume(v.And(net.win[i].mem[0] == (i << 24), net.win[i].mem[1] == (i << 24) + 0xffffff,
                       net.win[i].pf[0] > net.win[i].pf[1]))
    v.assume(v.And(net.win[0].mem[0] == 1 << 24, net.win[0].mem[1] == (3 << 24) - 1,
                   net.win[0].pf[0] > net.win[0].pf[1]))
    T = v.mod('core.tlp')
    C = v.mod('cocotb.triggers')
    plan = {'same': [(0, 1), (0, 1), (0, 1), (0, 1)], 'cross': [(1, 2), (2, 1), (1, 2), (0, 1)],
            'merge': [(1, 0), (2, 0), (1, 0), (2, 0)], 'updown': [(0, 2), (2, 0), (0, 1), (1, 0)]}[kind]
    got = {0: [], 1: [], 2: []}
    gate = C.Event()
    open_ = {'n': 0}

    def end(i):
        async def rx(t):
            open_['n'] += 1
            if open_['n'] == stall + 1:
                await gate.wait()
            got[i].append(t.tag)
        return rx
    net.br[0].upstream_tx_handler = end(0)
    net.br[1].downstream_tx_handler = end(1)
    net.br[2].downstream_tx_handler = end(2)
    for k, (a, b) in enumerate(plan):
        t = T.Tlp()
        t.fmt_type = T.TlpType.MEM_WRITE
        t.length, t.first_be, t.tag = 1, 0xf, k
        t.data = bytearray(4)
        t.address = (b << 24 if b else 0x80000000) + v.bits('off%d' % k, 20) * 4
        net.inject(a, t)
    gate.set()
    net.sim.run_ready()
    v.cover('m')
    for i in got:
        want = [k for k, (a, b) in enumerate(plan) if b == i]
        v.check('every packet comes out exactly once at port %d' % i, sorted(got[i]) == want)
        for a in range(3):
            src = [k for k in got[i] if plan[k][0] == a]
            v.check('in order', src == sorted(src))


# ------------------------------------------------------------------ multi-function device

class FakeFn:
    """a function, abstractly: whether it claims a packet is arbitrary"""

    def __init__(self, v, name, num):
        self.m = v.bool(name)
        self.function_num = num
        self.pcie_id = v.mod('core.utils').PcieId(0, 0, num)
        self.log = []
        self.upstream_tx_handler = None
        self.multifunction_device = False

    def match_tlp(self, t):
        return self.m

    async def upstream_recv(self, t):
        self.log.append(t)


@contract('P14', cases=TYPES, covers=['none', 'some'])
def device_dispatch(v, tname):
    """up to 8 functions (the maximum) with arbitrary claims: the packet goes to exactly one function that claims it, else
    credits are released once and a non-posted request gets one UR from the device"""
    D = v.mod('core.device')
    u = v.mod('core.utils')
    v.mod('cocotb').reset()
    d = D.Device()
    n = v.choice('functions', [0, 1, 2, 3, 8])
    fs = [FakeFn(v, 'f%d' % i, i) for i in range(n)]
    for f in fs:
        d.add_function(f)
    d.bus_num = v.bits('bus', 8)
    back = Sink()
    v.patch(d.upstream_port, 'send', back)
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    old = d.bus_num
    v.run(d.upstream_recv(t), fresh=False)
    bus = s.completer_id.bus if tname in CFG0 else old
    v.check('bus number captured from type 0 requests only', v.eq(d.bus_num, bus))
    for f in fs:
        v.check('functions learn the bus number', v.eq(f.pcie_id.bus, bus))
    got = [f for f in fs if f.log]
    if v.Or(False, *[f.m for f in fs]):
        v.cover('some')
        v.check('exactly one function gets it', v.And(len(got) == 1, sum(len(f.log) for f in fs) == 1))
        v.check('one that claims it', got[0].m)
        v.check('no answer by the device', not back.sent)
        v.check('credits stay with the packet', fc.n == 0)
        same_packet(v, got[0].log[0], s)
    else:
        v.cover('none')
        v.check('no function gets it', not got)
        unclaimed(v, tname, s, fc, back, u.PcieId(bus, 0, 0))


@contract('P14', cases=[(n, t) for n in (1, 2, 3) for t in TYPES], covers=['m'],
          bounded='devices of 1-3 functions with one BAR each (any number: device_dispatch)')
def device_real(v, case):
    """real functions at arbitrary function numbers and BARs: the packet reaches the function its ID or address selects"""
    n, tname = case
    v.merge()
    D = v.mod('core.device')
    E = v.mod('core.endpoint')
    u = v.mod('core.utils')
    v.mod('cocotb').reset()
    d = D.Device()
    fs, hs, bs = [], [], []
    nums = v.choice('numbers', {1: [(0,), (5,)], 2: [(0, 1), (0, 7)], 3: [(0, 1, 2), (0, 3, 6)]}[n])
    io = tname.startswith('IO')
    for i in range(n):
        f = E.Endpoint()
        f.pcie_id = u.PcieId(0, 0, nums[i])
        d.add_function(f)
        fs.append(f)
        hs.append(Handled(v, f))
        if tname in MEM or io:
            f.configure_bar(0, 4096 << i, io=io)
            w = v.bits('bar%d' % i, 32)
            v.run(f.write_config_register(4, w, 0xf), fresh=False)
            bs.append([(0, 'io' if io else 'm32', w & ~((4096 << i) - 1), 4096 << i)])
        else:
            bs.append([])
    d.bus_num = v.bits('bus', 8)
    back = Sink()
    v.patch(d.upstream_port, 'send', back)
    t = packet(v, tname)
    s = Snap(t)
    fc = Fc(t)
    sel = [own(v, f, b, t, tname, f.pcie_id) for f, b in zip(fs, bs)]
    v.run(d.upstream_recv(t), fresh=False)
    v.cover('m')
    cnt = [h.count() for h in hs]
    if v.Or(*sel):
        v.check('exactly one function takes it', sum(cnt) == 1)
        v.check('the one it selects', sel[cnt.index(1)])
        v.check('no answer by the device', not back.sent)
    else:
        v.check('no function takes it', sum(cnt) == 0)
        unclaimed(v, tname, s, fc, back)


@contract('P14', covers=['m'])
def device_numbers(v):
    """functions of a device never share a function number and send through the device's port"""
    v.merge()
    D = v.mod('core.device')
    E = v.mod('core.endpoint')
    u = v.mod('core.utils')
    v.mod('cocotb').reset()
    d = D.Device()
    first = v.choice('first', [None, 0, 1, 3, 7])
    if first is not None:
        f = E.Endpoint()
        f.pcie_id = u.PcieId(0, 0, first)
        d.add_function(f)
    n = v.choice('n', [1, 2, 4, 7])
    for _ in range(n):
        d.append_function(E.Endpoint())
    nums = [f.function_num for f in d.functions]
    v.cover('m')
    v.check('numbers are unique and in range', v.And(len(set(nums)) == len(nums), all(0 <= x < 8 for x in nums)))
    v.check('all functions kept', len(nums) == n + (first is not None))
    v.check('multifunction flag', all(bool(f.multifunction_device) == (len(nums) > 1) for f in d.functions))
    g = E.Endpoint()
    g.pcie_id = u.PcieId(0, 0, nums[0])
    v.check('a number in use is refused', v.raises(d.add_function, g)[1] is not None)
    back = Sink()
    v.patch(d.upstream_port, 'send', back)
    t = packet(v, 'MEM_WRITE')
    s = Snap(t)
    v.run(v.choice('by', d.functions).send(t), fresh=False)
    v.check('sent once through the port of the device', len(back.sent) == 1)
    same_packet(v, back.sent[0], s)

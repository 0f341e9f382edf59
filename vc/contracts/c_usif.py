"""Xilinx UltraScale stream interfaces (P28): the real RQ, RC, CQ and CC sources and sinks connected by a bus, at every width
and straddling mode, and the marks they put on the bus."""
from vc.reg import contract, Thorough
from vc.contracts.c_intel import Sig, Clk, Entity

# kind -> (tuser widths by bus width class, straddling modes at 256 and 512 bit)
TUSER = {'Rq': ((60, 62), 137), 'Rc': ((75,), 161), 'Cq': ((85, 88), 183), 'Cc': ((33,), 81)}
STRADDLE = {'Rq': {512: (1, 2)}, 'Rc': {256: (1, 2), 512: (1, 2, 4)}, 'Cq': {512: (1, 2)}, 'Cc': {512: (1, 2)}}
# sequences of frames: (DWs including the descriptor, cycle in which it is sent)
SEQ = [
    [(4, 0), (5, 0), (4, 0)],
    [(8, 0), (4, 0), (9, 0)],
    [(5, 0), (16, 0), (4, 1)],
    [(17, 0), (7, 0), (12, 2)],
    [(20, 0), (24, 0), (4, 0), (4, 3)],
    [(3, 0), (3, 0), (3, 0), (3, 0), (3, 0), (4, 5)],
    [(4, 0), (4, 3), (6, 6), (4, 7)],
]
PAUSE = {'free': ((), ()), 'source': ((0, 2, 3), ()), 'sink': ((), (0, 1, 3)), 'both': ((1, 4), (2, 4, 5))}
CYCLES = 48


class ESig(Sig):
    """a signal with edge events"""
    def __init__(self, bus, n):
        super().__init__(bus, n)
        self.w = []

    def _edge(self, kind, cb):
        self.w.append(cb)

    def _unedge(self, kind, cb):
        if cb in self.w:
            self.w.remove(cb)

    def settle(self):
        old = self.cur
        super().settle()
        if self.n == 1 and not old and self.cur:
            w, self.w = self.w, []
            for cb in w:
                cb()


class Bus:
    _name = None
    _entity = Entity
    PAY = ('tdata', 'tlast', 'tkeep', 'tuser')

    def __init__(self, v, width, tuser):
        self.v = v
        self._sigs = {n: ESig(self, w) for n, w in dict(tdata=width, tkeep=width // 32, tlast=1, tuser=tuser, tvalid=1,
                                                       tready=1).items()}
        for n, s in self._sigs.items():
            setattr(self, n, s)

    def drive(self, o):
        for n in self.PAY:
            x = getattr(o, n)
            self.v.check('value fits its signal (%s)' % n, self.v.And(x >= 0, x < 1 << len(self._sigs[n])))
            self._sigs[n].value = x

    def sample(self, o):
        for n in self.PAY:
            setattr(o, n, self._sigs[n].value)

    def settle(self):
        for s in self._sigs.values():
            s.settle()


def geometries():
    for kind, (small, big) in TUSER.items():
        for width in (64, 128, 256):
            for segs in STRADDLE[kind].get(width, (1,)):
                for tu in small:
                    yield kind, width, tu, segs
        for segs in STRADDLE[kind][512]:
            yield kind, 512, big, segs


def cases():
    r = []
    for j, g in enumerate(geometries()):
        for i in range(len(SEQ)):
            for k, p in enumerate(PAUSE):
                c = g + (i, p)
                r.append(c if k == (i + j) % 4 or p == 'free' and g[3] > 1 else Thorough(c))
    return r


def any_frame(v, kind, F, n, p, segs, tuser):
    f = F()
    f.data = [v.bits('%sd%d' % (p, k), 32) for k in range(n)]
    f.parity = [v.bits('%sp%d' % (p, k), 4) for k in range(n)]
    if kind in ('Rc', 'Cq'):
        f.byte_en = [v.bits('%sb%d' % (p, k), 4) for k in range(n)]
    if kind in ('Rq', 'Cq'):
        f.first_be, f.last_be = v.bits(p + 'fbe', 4), v.bits(p + 'lbe', 4)
    if kind == 'Rq':
        f.seq_num = v.bits(p + 'seq', 4 if tuser == 60 else 6)
    return f


def setup(v, case, sink):
    kind, width, tu, segs, i = case[:5]
    I = v.mod('xilinx.us.interface')
    sim = v.mod('cocotb').reset()
    clk = Clk()
    bus = Bus(v, width, tu)
    src = getattr(I, kind + 'Source')(bus, clk, segments=segs)
    snk = getattr(I, kind + 'Sink')(bus, clk, segments=segs) if sink else None
    tx = [(any_frame(v, kind, I.UsPcieFrame, n, 'f%d.' % k, segs, tu), when) for k, (n, when) in enumerate(SEQ[i])]
    if segs == 1:
        # with straddling one discontinue flag serves all frames of a beat
        for k, (f, when) in enumerate(tx):
            f.discontinue = k % 2 == 1
    return I, sim, clk, bus, src, snk, tx


def step(sim, bus, clk):
    sim.run_ready()
    bus.settle()
    sim.run_ready()
    clk.tick()
    sim.run_ready()
    bus.settle()


BOUND = 'sequences of 3-6 frames of up to 24 DW with arbitrary contents, fixed arrival cycles and stall patterns'


@contract('P28', cases=cases(), covers=['received'], bounded=BOUND, fuzz=12)
def stream(v, case):
    """source and sink connected: every frame arrives exactly once, in order, with its data, byte enables, sequence number,
    parity and discontinue flag; afterwards the source is idle"""
    kind, width, tu, segs, i, pname = case
    I, sim, clk, bus, src, snk, tx = setup(v, case, True)
    want = [f for f, _ in tx]
    sp, kp = PAUSE[pname]
    for cyc in range(CYCLES):
        while tx and tx[0][1] <= cyc:
            src.send_nowait(tx.pop(0)[0])
        src.pause = cyc in sp
        snk.pause = cyc in kp
        sim.run_ready()
        bus.settle()
        held = bus.tvalid.value and not bus.tready.value
        now = [bus._sigs[n].value for n in Bus.PAY]
        step(sim, bus, clk)
        if held:
            v.check('an offered beat stays until it is taken', bool(bus.tvalid.value) and
                    v.And(*[v.eq(bus._sigs[n].value, x) for n, x in zip(Bus.PAY, now)]))
    got = []
    while not snk.empty():
        got.append(snk.recv_nowait())
    v.check('every frame arrives exactly once', len(got) == len(want))
    v.cover('received')
    for k, (a, b) in enumerate(zip(want, got)):
        w = 'frame %d' % k
        v.check(w + ': number of DWs', len(a.data) == len(b.data))
        v.check(w + ': content', v.And(*[v.eq(x, y) for x, y in zip(a.data, b.data)]))
        v.check(w + ': parity', len(a.parity) == len(b.parity) and v.And(*[v.eq(x, y) for x, y in zip(a.parity, b.parity)]))
        if kind in ('Rc', 'Cq'):
            v.check(w + ': byte enables', len(a.byte_en) == len(b.byte_en) and v.And(*[v.eq(x, y) for x, y in zip(a.byte_en, b.byte_en)]))
        if kind in ('Rq', 'Cq'):
            v.check(w + ': first and last DW byte enables', v.And(v.eq(a.first_be, b.first_be), v.eq(a.last_be, b.last_be)))
        if kind == 'Rq':
            v.check(w + ': sequence number', v.eq(a.seq_num, b.seq_num))
        v.check(w + ': discontinue', bool(a.discontinue) == bool(b.discontinue))
    v.check('source is idle', src.idle())
    v.check('queues are accounted for', src.queue_occupancy_frames == 0 and src.queue_occupancy_bytes == 0 and
            snk.queue_occupancy_frames == 0 and snk.queue_occupancy_bytes == 0)


# fields of tuser (PG156, PG213): sop flags, sop pointers, eop flags, eop pointers, discontinue, parity, byte enables
WIDE = {'Rq': (20, 22, 26, 28, 36, 73, None), 'Rc': (64, 68, 76, 80, 96, 97, 0), 'Cq': (80, 82, 86, 88, 96, 119, 16),
        'Cc': (0, 2, 6, 8, 16, 17, None)}
NARROW = {'Rq': (11, 28, None), 'Rc': (42, 43, 0), 'Cq': (41, 53, 8), 'Cc': (0, 1, None)}


def flag(x, b):
    return 1 if x >> b & 1 else 0


def number(x, b, n):
    return sum(flag(x, b + k) << k for k in range(n))


@contract('P28', cases=[g + (i,) for g in geometries() for i in range(len(SEQ))], covers=['sent'], bounded=BOUND, fuzz=12)
def marks(v, case):
    """what a source drives, read as the product guides define it: frames start at a segment, lanes are used without gaps,
    tlast, tkeep, start and end marks and their pointers delimit the frames, the side band values are in their fields"""
    kind, width, tu, segs, i = case
    I, sim, clk, bus, src, _, tx = setup(v, case, False)
    want = [f for f, _ in tx]
    for f in want:
        src.send_nowait(f)
    bus.tready.setimmediatevalue(1)
    lanes = width // 32
    beats = []
    for cyc in range(CYCLES):
        step(sim, bus, clk)
        if bus.tvalid.value:
            beats.append(tuple(bus._sigs[n].value for n in Bus.PAY))
    disc, par, ben = WIDE[kind][4:] if width == 512 else NARROW[kind]
    nseg = {512: 4, 256: 2}.get(width, 1) if kind == 'Rc' else 2
    out, cur = [], None
    v.cover('sent')
    for tdata, tlast, tkeep, tuser in beats:
        starts, ends = [], []
        if width == 512:
            sop, sptr, eop, eptr = WIDE[kind][:4]
            for k in range(nseg):
                if flag(tuser, sop + k):
                    v.check('start marks are used in order', len(starts) == k)
                    starts.append(number(tuser, sptr + 2 * k, 2) * 4)
                if flag(tuser, eop + k):
                    v.check('end marks are used in order', len(ends) == k)
                    ends.append(number(tuser, eptr + 4 * k, 4))
        elif kind == 'Rc':
            for k in range(2):
                if flag(tuser, 32 + k):
                    v.check('start marks are used in order', len(starts) == k)
                    starts.append(4 if k or cur is not None and segs > 1 else 0)
                if flag(tuser, 34 + 4 * k):
                    v.check('end marks are used in order', len(ends) == k)
                    ends.append(number(tuser, 35 + 4 * k, 3))
        elif kind == 'Cq':
            if flag(tuser, 40):
                starts.append(0)
        if segs == 1:
            keep = [j for j in range(lanes) if flag(tkeep, j)]
            v.check('lanes are used from the lowest', keep == list(range(len(keep))) and len(keep) > 0)
            v.check('only the last beat of a frame is partly used', flag(tlast, 0) == 1 or len(keep) == lanes)
            if width == 512 or kind in ('Rc', 'Cq'):
                v.check('start mark on the first beat', starts == ([0] if cur is None else []))
            if width == 512 or kind == 'Rc':
                v.check('end mark on the last beat', ends == ([len(keep) - 1] if flag(tlast, 0) else []))
            starts = [0] if cur is None else []
            ends = [len(keep) - 1] if flag(tlast, 0) else []
        v.check('frames start at a segment', all(s % (lanes // segs) == 0 for s in starts))
        nth = 0
        for lane in range(lanes):
            if lane in starts:
                v.check('no frame starts within another', cur is None)
                cur = ([], nth, lane, tuser)
                nth += 1
            if cur is not None:
                cur[0].append((lane, tdata, tuser))
            if lane in ends:
                v.check('a frame ends after it started', cur is not None)
                if cur is not None:
                    out.append(cur)
                cur = None
    v.check('the last frame ends', cur is None)
    v.check('every frame is sent exactly once', len(out) == len(want))
    for k, (f, (dws, nth, at, tuser)) in enumerate(zip(want, out)):
        w = 'frame %d' % k
        v.check(w + ': number of DWs', len(dws) == len(f.data))
        v.check(w + ': content', v.And(*[v.eq(d >> 32 * l & 0xffffffff, x) for (l, d, u), x in zip(dws, f.data)]))
        v.check(w + ': parity', v.And(*[v.eq(u >> par + 4 * l & 0xf, x) for (l, d, u), x in zip(dws, f.parity)]))
        if ben is not None:
            v.check(w + ': byte enables', v.And(*[v.eq(u >> ben + 4 * l & 0xf, x) for (l, d, u), x in zip(dws, f.byte_en)]))
        if segs == 1:
            v.check(w + ': discontinue', all(flag(u, disc) == f.discontinue for l, d, u in dws))
        if kind == 'Rq' or kind == 'Cq' and at == 0:
            hi = 8 if width == 512 else 4
            v.check(w + ': first and last DW byte enables',
                    v.And(v.eq(tuser >> 4 * nth & 0xf, f.first_be), v.eq(tuser >> hi + 4 * nth & 0xf, f.last_be)))
        if kind == 'Rq':
            if width == 512:
                sn = tuser >> 61 + 6 * nth & 0x3f
            else:
                sn = tuser >> 24 & 0xf | (tuser >> 60 & 3) << 4 if tu == 62 else tuser >> 24 & 0xf
            v.check(w + ': sequence number', v.eq(sn, f.seq_num))

"""Intel stream interfaces (P25): H-tile/L-tile (S10) and P-tile frames, parity, and the framing of packet sequences on
the bus by the real source and sink under stalls."""
from vc.reg import contract, Thorough
from vc.contracts.c_tlp import REQ, CPL, sym_tlp, has_data, four_dw, FIELDS, FMT_TYPE

LENS = [1, 2, 3, 4, 5, 7, 8, 17]
BOUND = ('payload contents and every header field arbitrary; payload lengths 0-5, 7, 8, 17 DW and 1024 DW '
         '(thorough also 33, 64, 255, 256, 257, 1023)')
FAM = {'s10': ('intel.s10.interface', 'S10Pcie'), 'ptile': ('intel.ptile.interface', 'PTilePcie')}


def cases():
    r = []
    for fam in FAM:
        for t in REQ + CPL:
            if has_data(t):
                r += [(fam, t, n) for n in (LENS if t in ('MEM_WRITE', 'MEM_WRITE_64', 'CPL_DATA') else (1, 2))]
            else:
                r.append((fam, t, 0))
        r.append((fam, 'MEM_WRITE', 1024))
        r += [Thorough((fam, t, n)) for t in ('MEM_WRITE', 'MEM_WRITE_64', 'CPL_DATA')
              for n in (33, 64, 255, 256, 257, 1023, 1024) if (t, n) != ('MEM_WRITE', 1024)]
    return r


def dw_of(v, b, k):
    return v.byte(b, 4 * k) | v.byte(b, 4 * k + 1) << 8 | v.byte(b, 4 * k + 2) << 16 | v.byte(b, 4 * k + 3) << 24


def hdr_dw(v, b, k):
    return v.byte(b, 4 * k) << 24 | v.byte(b, 4 * k + 1) << 16 | v.byte(b, 4 * k + 2) << 8 | v.byte(b, 4 * k + 3)


def pkt(v, tname, n, prefix=''):
    t = sym_tlp(v, tname, prefix)
    if has_data(tname):
        t.length = n
        t.data = v.bytes(prefix + 'payload', 4 * n, True)
    elif tname in CPL:
        t.length = 0
    return t


def ghost_parity(v, I):
    """parity by contract (see parity below): any function of the value"""
    v.patch(I, 'dword_parity', lambda d: (d ^ d >> 7) & 0xf)
    v.patch(I, 'parity', lambda d: (d ^ d >> 100) & 0xffff)


def odd(d):
    return ((d ^ d >> 7) & 0xf) ^ 0xf


def same_tlp(v, r, t, what):
    for f in FIELDS:
        v.check(what + ' keeps ' + f, v.eq(getattr(r, f), getattr(t, f)))
    v.check_bytes(what + ' keeps the payload', r.data, t.data)


@contract('P25', cases=cases(), covers=['frame'], bounded=BOUND)
def frame(v, case):
    """ensures: header DWs big endian (left aligned in the P-tile header field), payload DWs little endian, parity of every
    DW, and to_tlp gives the packet back; the source packet is not changed or shared"""
    fam, tname, n = case
    mod, cls = FAM[fam]
    I = v.mod(mod)
    F = getattr(I, cls + 'Frame')
    ghost_parity(v, I)
    t = pkt(v, tname, n)
    f = F.from_tlp(t)
    v.cover('frame')
    h = t.pack_header()
    nh = 4 if four_dw(tname) else 3
    if fam == 's10':
        v.check('number of DWs', len(f.data) == nh + n)
        for k in range(nh):
            v.check('header DW %d' % k, v.eq(f.data[k], hdr_dw(v, h, k)))
        body = f.data[nh:]
    else:
        v.check('number of DWs', len(f.data) == n)
        for k in range(4):
            v.check('header DW %d' % k, v.eq(f.hdr >> 96 - 32 * k & 0xffffffff, hdr_dw(v, h, k) if k < nh else 0))
        body = f.data
    for j in range(0, n, 64):
        v.check('payload DWs', v.And(*[v.eq(body[k], dw_of(v, t.data, k)) for k in range(j, min(j + 64, n))]))
    v.check('one parity value per DW', len(f.parity) == len(f.data))
    for k in sorted({0, len(f.data) // 2, len(f.data) - 1}):
        if 0 <= k < len(f.data):
            v.check('parity', v.eq(f.parity[k], odd(f.data[k])))
    v.check('parity is accepted', f.check_parity())
    r = f.to_tlp()
    same_tlp(v, r, t, 'round trip')
    g = F(f)
    v.check('copy of the frame is equal', g == f)
    v.check('copy of the frame is not shared', g.data is not f.data)
    same_tlp(v, g.to_tlp(), t, 'copied frame')


@contract('P25', cases=['s10', 'ptile'], covers=['p'])
def parity(v, fam):
    """one parity bit per byte of a DW or of a header"""
    I = v.mod(FAM[fam][0])
    d = v.bits('dw', 32)
    w = v.bits('hdr', 128)
    v.cover('p')

    def bit(x, b):
        r = 0
        for k in range(8):
            r = r ^ (x >> (8 * b + k) & 1)
        return r
    p = I.dword_parity(d)
    for b in range(4):
        v.check('parity of byte %d' % b, v.eq(p >> b & 1, bit(d, b)))
    v.check('four bits', v.And(p >= 0, p < 16))
    q = I.parity(w)
    for b in range(16):
        v.check('parity of header byte %d' % b, v.eq(q >> b & 1, bit(w, b)))
    v.check('sixteen bits', v.And(q >= 0, q < 1 << 16))


@contract('P25', cases=['s10', 'ptile'], covers=['good', 'bad'])
def parity_check(v, fam):
    """a frame is accepted exactly while the parity of every DW is right"""
    I = v.mod(FAM[fam][0])
    ghost_parity(v, I)
    f = getattr(I, FAM[fam][1] + 'Frame')()
    n = v.choice('n', [1, 2, 5])
    f.data = [v.bits('d%d' % k, 32) for k in range(n)]
    if fam == 'ptile':
        f.hdr, f.tlp_prfx = v.bits('hdr', 128), v.bits('prfx', 32)
    f.update_parity()
    for d, p in zip(f.data, f.parity):
        v.check('parity', v.eq(p, odd(d)))
    v.check('accepted', f.check_parity())
    k = v.choice('k', list(range(n)))
    f.parity[k] = v.bits('wrong', 4)
    if v.eq(f.parity[k], odd(f.data[k])):
        v.cover('good')
        v.check('accepted', f.check_parity())
    else:
        v.cover('bad')
        v.check('mismatch noticed', v.Not(f.check_parity()))


# ------------------------------------------------------------------ framing

class Sig:
    """a bus signal: assignments take effect at the end of the time step"""

    def __init__(self, bus, n):
        self.bus, self.n = bus, n
        self.cur, self.nxt = 0, None

    def __len__(self):
        return self.n

    def setimmediatevalue(self, x):
        self.cur = x

    @property
    def value(self):
        return self.cur

    @value.setter
    def value(self, x):
        self.nxt = (x,)

    def settle(self):
        if self.nxt is not None:
            self.cur, self.nxt = self.nxt[0], None


class Clk:
    def __init__(self):
        self.w = []

    def _edge(self, kind, cb):
        self.w.append(cb)

    def _unedge(self, kind, cb):
        if cb in self.w:
            self.w.remove(cb)

    def tick(self):
        w, self.w = self.w, []
        for cb in w:
            cb()


class Entity:
    _name = 'dut'


class FakeBus:
    _name = None
    _entity = Entity

    def __init__(self, v, sigs):
        self.v = v
        self._sigs = {n: Sig(self, w) for n, w in sigs.items()}
        for n, s in self._sigs.items():
            setattr(self, n, s)

    def drive(self, o):
        for n, s in self._sigs.items():
            if n != 'ready':
                x = getattr(o, n)
                self.v.check('value fits its signal (%s)' % n, self.v.And(x >= 0, x < 1 << s.n))
                s.value = x

    def sample(self, o):
        for n, s in self._sigs.items():
            if n != 'ready':
                setattr(o, n, s.value)

    def settle(self):
        for s in self._sigs.values():
            s.settle()


def signals(fam, segs, width):
    lanes = width // segs // 32
    d = dict(data=width, empty=segs * max((lanes - 1).bit_length(), 1), sop=segs, eop=segs, valid=segs, ready=1, err=segs,
             bar_range=segs * 3, vf_active=segs, vf_num=segs * 11, func_num=segs * (2 if fam == 's10' else 3))
    if fam == 's10':
        d.update(parity=width // 8)
    else:
        d.update(hdr=128 * segs, tlp_prfx=32 * segs, data_par=width // 8, hdr_par=16 * segs, tlp_prfx_par=4 * segs)
    return d


GEOM = {'s10': [(1, 256), (2, 512)], 'ptile': [(1, 128), (1, 256), (2, 512)]}
# sequences of packets: (type, payload DWs, cycle in which it is sent); sizes around segment and cycle boundaries
SEQ = [
    [('MEM_READ', 0, 0), ('MEM_WRITE', 1, 0), ('MEM_READ_64', 0, 0)],
    [('MEM_WRITE', 5, 0), ('CPL_DATA', 5, 0), ('MEM_WRITE_64', 4, 0)],
    [('MEM_WRITE', 6, 0), ('MEM_READ', 0, 0), ('MEM_WRITE', 13, 0)],
    [('MEM_WRITE_64', 12, 0), ('CPL', 0, 0), ('CPL_DATA', 8, 0)],
    [('MEM_WRITE', 8, 0), ('MEM_WRITE_64', 9, 0), ('MEM_WRITE', 16, 0)],
    [('MEM_WRITE', 3, 0), ('MEM_WRITE', 17, 1), ('CFG_READ_0', 0, 2)],
    [('MEM_WRITE', 4, 0), ('MEM_WRITE', 4, 0), ('MEM_WRITE', 4, 1), ('IO_READ', 0, 4)],
]
PAUSE = {'free': ((), ()), 'source': ((0, 2, 3), ()), 'sink': ((), (0, 1, 3)), 'both': ((1, 4), (2, 4, 5))}


def frame_cases():
    r = []
    for fam, gs in GEOM.items():
        for g in gs:
            for i in range(len(SEQ)):
                for p in PAUSE:
                    for lat in (0, 1, 2, 3):
                        c = (fam, g[0], g[1], i, p, lat)
                        r.append(c if lat in (0, (i + len(p)) % 3 + 1) else Thorough(c))
    return r


def any_frame(v, fam, F, tname, n, p, some=None):
    """an arbitrary frame of the given type and payload length (the header is arbitrary but for format and length)"""
    f = F()
    fmt, typ = FMT_TYPE[tname]
    h0 = fmt << 29 | typ << 24 | v.bits(p + 'h0', 14) << 10 | n % 1024
    hdr = [h0] + [v.bits(p + 'h%d' % k, 32) for k in range(1, 4 if fmt & 1 else 3)]
    body = [v.bits(p + 'd%d' % k, 32) if some is None or k in some or k - n in some else (k * 0x9e3779b1 ^ n) & 0xffffffff
            for k in range(n)]
    if fam == 's10':
        f.data = hdr + body
    else:
        hdr += [0] * (4 - len(hdr))
        f.hdr = hdr[0] << 96 | hdr[1] << 64 | hdr[2] << 32 | hdr[3]
        f.tlp_prfx = v.bits(p + 'prfx', 32)
        f.data = body
    f.update_parity()
    return f


@contract('P25', cases=frame_cases(), covers=['received'],
          bounded='sequences of 3-4 packets of up to 17 DW with arbitrary contents, fixed stall patterns, ready latency 0-3')
def framing(v, case):
    """the real source and sink, connected: every packet arrives exactly once, in order, unchanged, with its side band
    values; the segments used are consecutive and start and end marks enclose each packet"""
    fam, segs, width, i, pname, lat = case
    connected(v, fam, segs, width, SEQ[i], PAUSE[pname], lat, 60)


LARGE = [1024, 512, 256] + [Thorough(n) for n in (31, 32, 33, 127, 255, 257, 511, 513, 1020, 1023)]


@contract('P25', cases=[Thorough((fam, g[0], g[1], n.value)) if isinstance(n, Thorough) else (fam, g[0], g[1], n)
                        for fam, gs in GEOM.items() for g in gs for n in LARGE], covers=['received'],
          bounded='one packet of 256, 512 or 1024 DW (thorough also 31-33, 127, 255, 257, 511, 513, 1020, 1023) before two short '
                  'ones; the headers, the first and the last three payload DWs arbitrary, the other payload DWs fixed values')
def framing_large(v, case):
    """the same for packets up to the largest one"""
    fam, segs, width, n = case
    connected(v, fam, segs, width, [('MEM_WRITE_64', n, 0), ('CPL_DATA', 1, 0), ('MEM_READ', 0, 0)], ((7,), (11, 12)), 1,
              n * 32 // width + 30, {0, -1, -2, -3})


def connected(v, fam, segs, width, seq, pause, lat, cycles, some=None):
    mod, cls = FAM[fam]
    I = v.mod(mod)
    ghost_parity(v, I)
    C = v.mod('cocotb')
    sim = C.reset()
    clk = Clk()
    bus = FakeBus(v, signals(fam, segs, width))
    src = getattr(I, cls + 'Source')(bus, clk, ready_latency=lat)
    snk = getattr(I, cls + 'Sink')(bus, clk, ready_latency=lat)
    F = getattr(I, cls + 'Frame')
    tx = []
    for k, (tname, n, when) in enumerate(seq):
        f = any_frame(v, fam, F, tname, n, 'p%d.' % k, some)
        f.func_num = v.bits('func%d' % k, 2 if fam == 's10' else 3)
        f.bar_range = v.bits('bar%d' % k, 3)
        f.err = v.bits('err%d' % k, 1)
        f.vf_num = v.bits('vf%d' % k, 11) if k % 2 else None
        tx.append((f, when))
    want = [f for f, _ in tx]
    sp, kp = pause
    for cyc in range(cycles):
        while tx and tx[0][1] <= cyc:
            src.send_nowait(tx.pop(0)[0])
        src.pause = cyc in sp
        snk.pause = cyc in kp
        sim.run_ready()
        bus.settle()
        clk.tick()
        sim.run_ready()
        bus.settle()
    got = []
    while not snk.empty():
        got.append(snk.recv_nowait())
    v.check('every packet arrives exactly once', len(got) == len(want))
    v.cover('received')
    for k, (a, b) in enumerate(zip(want, got)):
        w = 'packet %d' % k
        v.check(w + ': number of DWs', len(a.data) == len(b.data))
        v.check(w + ': content', v.And(*[v.eq(x, y) for x, y in zip(a.data, b.data)]))
        v.check(w + ': parity', v.And(*[v.eq(x, y) for x, y in zip(a.parity, b.parity)]))
        for n in ('func_num', 'bar_range', 'err', 'vf_num') + (('hdr', 'hdr_par', 'tlp_prfx', 'tlp_prfx_par')
                                                               if fam == 'ptile' else ()):
            x, y = getattr(a, n), getattr(b, n)
            v.check('%s: %s' % (w, n), (x is None) == (y is None) if x is None or y is None else v.eq(x, y))
    v.check('source is idle', src.idle())


@contract('P25', cases=[(fam, g[0], g[1], i) for fam, gs in GEOM.items() for g in gs for i in range(len(SEQ))],
          covers=['sent'], bounded='sequences of 3-4 packets of up to 17 DW with arbitrary contents')
def marks(v, case):
    """what the source drives: in bus order, every packet starts with sop and ends with eop, no valid segment lies between
    packets, payload DWs are packed from the lowest lane, and empty counts the unused lanes of the last segment"""
    fam, segs, width, i = case
    mod, cls = FAM[fam]
    I = v.mod(mod)
    ghost_parity(v, I)
    C = v.mod('cocotb')
    sim = C.reset()
    clk = Clk()
    bus = FakeBus(v, signals(fam, segs, width))
    src = getattr(I, cls + 'Source')(bus, clk)
    F = getattr(I, cls + 'Frame')
    frames = []
    for k, (tname, n, when) in enumerate(SEQ[i]):
        f = any_frame(v, fam, F, tname, n, 'p%d.' % k)
        frames.append(f)
        src.send_nowait(f)
    lanes = width // segs // 32
    ew = (lanes - 1).bit_length()
    bus.ready.setimmediatevalue(1)
    out = []
    for cyc in range(30):
        sim.run_ready()
        bus.settle()
        clk.tick()
        sim.run_ready()
        bus.settle()
        if bus.valid.value:
            for s in range(segs):
                if bus.valid.value >> s & 1:
                    out.append((bus.sop.value >> s & 1, bus.eop.value >> s & 1,
                                [bus.data.value >> 32 * (s * lanes + j) & 0xffffffff for j in range(lanes)],
                                bus.empty.value >> s * ew & (1 << ew) - 1,
                                bus.hdr.value >> 128 * s & (1 << 128) - 1 if fam == 'ptile' else 0))
                else:
                    v.check('no hole after the last segment', bus.valid.value >> s == 0)
    v.cover('sent')
    pos = 0
    for k, f in enumerate(frames):
        n = len(f.data)
        need = max((n + lanes - 1) // lanes, 1)
        seg = out[pos:pos + need]
        v.check('packet %d has all its segments' % k, len(seg) == need)
        for j, (sop, eop, dws, empty, hdr) in enumerate(seg):
            v.check('start mark', v.eq(sop, 1 if j == 0 else 0))
            v.check('end mark', v.eq(eop, 1 if j == need - 1 else 0))
            m = min(lanes, n - j * lanes)
            v.check('content', v.And(*[v.eq(dws[q], f.data[j * lanes + q]) for q in range(m)]))
            if eop and n:
                v.check('empty lanes', v.eq(empty, lanes - m))
            if fam == 'ptile' and j == 0:
                v.check('header', v.eq(hdr, f.hdr))
        pos += need
    v.check('nothing but the packets is sent', pos == len(out))

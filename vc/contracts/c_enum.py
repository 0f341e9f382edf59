"""Bus enumeration: sizing and assigning BARs, bridge windows, bus numbers (P21)."""
from vc.reg import contract, Thorough
from vc.contracts._common import mk_id, id_eq
from vc.contracts._loops import Poison, is_fn, locals_for
from vc.contracts.c_bar import pow2, cfg_read, cfg_write, M32
from vc.explore import NoSuchState

PCI = 'cocotbext.pcie.core.pci'
TOP = {'io': 1 << 32, 'mem': 1 << 32, 'prefetchable_mem': 1 << 64}
SPACES = ('io', 'mem', 'prefetchable_mem')


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Windows:
    """ghost address space: records the windows made in it"""
    def __init__(self, host, name):
        self.host, self.name = host, name

    def create_window(self, addr, size=None, *a, **k):
        w = (self.name, addr, size)
        self.host.windows.append(w)
        return w


class Host:
    """ghost root complex: configuration accesses go straight to the registers of the addressed function (P13 and P19 are
    about the path), or are recorded when there is none"""
    def __init__(self, v, f=None):
        self.v, self.f = v, f
        self.log = Quiet()
        self.windows = []
        self.bytes = {}
        self.ids = []
        self.mem_address_space = Windows(self, 'mem')
        self.io_address_space = Windows(self, 'io')

    async def config_read(self, dev, addr, length, *a, **k):
        self.ids.append(dev)
        out = []
        for i in range(addr, addr + length):
            w = await self.f.read_config_register(i >> 2)
            out.append(w >> 8 * (i & 3) & 0xff)
        return self.v.mk_bytes(out, mutable=True)

    async def config_write(self, dev, addr, data, *a, **k):
        v = self.v
        self.ids.append(dev)
        n = v.len(data)
        i = 0
        while i < n:
            reg = (addr + i) >> 2
            w, be = 0, 0
            while i < n and (addr + i) >> 2 == reg:
                lane = (addr + i) & 3
                b = v.byte(data, i)
                self.bytes[addr + i] = b
                w |= b << 8 * lane
                be |= 1 << lane
                i += 1
            if self.f is not None:
                await self.f.write_config_register(reg, w, be)

    def word(self, addr):
        """what was written last to a 32-bit register (None: not fully written)"""
        bs = [self.bytes.get(addr + i) for i in range(4)]
        if any(b is None for b in bs):
            return None
        return bs[0] | bs[1] << 8 | bs[2] << 16 | bs[3] << 24


def limits(v, b):
    return {s: getattr(b, s + '_limit') for s in SPACES}


def set_limits(v, b, lim):
    for s in SPACES:
        v.put(b, s + '_limit', lim[s])


def function(v, P, host, hb=None):
    """root complex' view of a function on the bus below the bridge hb"""
    hb = hb or P.PciHostBridge(host)
    dev = P.PciDevice(hb.bus)
    dev.pcie_id = mk_id(v, v.mod('core.utils'), 'me')
    return hb, dev


# ------------------------------------------------------------------ alignment

@contract('P21', covers=['m'])
def align(v):
    """align(x, 2^k-1) is the smallest multiple of 2^k that is not below x"""
    s = 1 << v.choice('k', list(range(0, 64)))
    x = v.bits('x', 65)
    r = v.mod('core.utils').align(x, s - 1)
    v.cover('m')
    v.check('a multiple', v.eq(r & (s - 1), 0))
    v.check('not below', r >= x)
    v.check('the smallest', r - x < s)


class Align:
    """align() by its contract (proved above)"""
    def __init__(self, v, P, top):
        self.v, self.top = v, top
        v.put(P, 'align', self)

    def __call__(self, x, mask):
        v = self.v
        v.check('alignment is a power of two', v.eq(mask & (mask + 1), 0))
        r = v.havoc_int('aligned', 0, self.top - 1)
        v.assume(v.And(r >= x, r - x <= mask, r + mask < self.top))       # precondition: there is room
        v.assume(v.eq(r & mask, 0))
        return r


# ------------------------------------------------------------------ one BAR

class BarLoop:
    """contract of a loop over BAR indices: an arbitrary iteration from an arbitrary index"""
    def __init__(self, v, fn, index, after):
        self.v, self.fn, self.index, self.after = v, fn, index, after
        self.used = False

    def attach(self, lc):
        if self.used or not is_fn(lc, PCI, self.fn) or lc.site[3] != 'while':
            return None
        self.used = True
        return self

    def head(self, lc, loc):
        if lc.count == 1:
            names = [n for n in lc.site[4] if type(loc.get(n)) is int and loc[n] == 0]
            if len(names) != 1:
                raise NoSuchState('BAR index')
            self.name = names[0]
            return locals_for(lc, {self.name: self.index})
        self.after(loc[self.name])
        self.v.stop()


def bar_flags(v, kind, n):
    """-> flag bits of a BAR of the kind, prefetchable?"""
    if kind == 'io':
        return 1, False
    pf = v.choice('pf' + n, [False, True])
    return (4 if kind == 'm64' else 0) | (8 if pf else 0), pf


def space_of(kind, pf):
    return 'io' if kind == 'io' else 'prefetchable_mem' if kind == 'm64' and pf else 'mem'


def allocated(v, what, sp, old, new, size, window, waddr):
    """one allocation of `size` at waddr, from the limits old to the limits new"""
    v.check(what + 'window is in the right address space', window[0] == ('io' if sp == 'io' else 'mem'))
    v.check(what + 'window starts at the assigned address', v.eq(window[1], waddr))
    v.check(what + 'window has the size of the BAR', v.eq(window[2], size))
    v.check(what + 'naturally aligned', v.eq(waddr & (size - 1), 0))
    v.check(what + 'behind everything assigned before', waddr >= old[sp])
    v.check(what + 'no larger gap than alignment needs', waddr - old[sp] < size)
    v.check(what + 'everything assigned later lies behind it', v.eq(new[sp], waddr + size))
    for s in SPACES:
        if s != sp:
            v.check(what + 'other address spaces are untouched', v.eq(new[s], old[s]))


@contract('P21', cases=[(n, k) for n in (6, 2) for k in ('none', 'io', 'm32', 'm64', 'rom', 'norom')], covers=['m'])
def assign_bars(v, case):
    """one arbitrary iteration of the assignment loop from arbitrary limits: the BAR gets a naturally aligned window of its
    size and kind behind everything assigned before, and exactly this BAR register is programmed with it; likewise the
    expansion ROM"""
    count, kind = case
    P = v.mod('core.pci')
    h = Host(v)
    hb, dev = function(v, P, h)
    rom = 0x30 if count == 6 else 0x38
    if not v.symbolic:
        return assign_bars_concrete(v, P, h, hb, dev, count, rom)
    old = {s: v.int(s + ' limit', 1, TOP[s]) for s in SPACES}
    set_limits(v, hb, old)
    v.put(dev, 'bar_raw', [Poison() for _ in range(count)] + [None] * (6 - count))
    v.put(dev, 'bar_size', [Poison() for _ in range(count)] + [None] * (6 - count))
    v.put(dev, 'expansion_rom_size', Poison())
    v.put(dev, 'expansion_rom_raw', Poison())
    seen = []
    if kind in ('rom', 'norom'):
        b = count
        sp = 'mem'
        size = 0
        if kind == 'rom':
            size = pow2(v, 'size', 11, 31)
            raw = v.bits('raw', 32)
        else:
            raw = 0
        v.put(dev, 'expansion_rom_size', size)
        v.put(dev, 'expansion_rom_raw', raw)
    else:
        b = v.choice('index', range(count - 1 if kind == 'm64' else count))
        if kind == 'none':
            size, raw, sp = 0, 0, None
        else:
            flags, pf = bar_flags(v, kind, '')
            sp = space_of(kind, pf)
            size = pow2(v, 'size', 2 if kind == 'io' else 4, 63 if kind == 'm64' else 31)
            raw = v.bits('high', 28 if kind != 'm64' else 60) << 4 | flags
            if kind == 'io':
                raw |= v.bits('io high', 2) << 2
        dev.bar_raw[b], dev.bar_size[b] = raw, size
        if kind == 'm64':
            dev.bar_raw[b + 1] = dev.bar_size[b + 1] = None
    if sp is not None:
        Align(v, P, TOP[sp])

    def after(nb):
        seen.append(nb)
        v.cover('m')
        v.check('goes on with the next BAR', nb == b + (2 if kind == 'm64' else 1))
        done()

    def done():
        new = limits(v, hb)
        if kind in ('none', 'norom'):
            v.check('nothing is assigned to what is not there', not h.windows and not h.bytes)
            for s in SPACES:
                v.check('no space is used', v.eq(new[s], old[s]))
            return
        v.check('one window', len(h.windows) == 1)
        reg = rom if kind == 'rom' else 0x10 + 4 * b
        regs = set(range(reg, reg + (8 if kind == 'm64' else 4)))
        v.check('exactly its own register is programmed', set(h.bytes) == regs)
        v.check('of this function', all(i is dev.pcie_id or v.truth(id_eq(v, i, dev.pcie_id)) is True for i in h.ids))
        w = h.word(reg)
        if kind == 'm64':
            w = w | h.word(reg + 4) << 32
        lowbits = 0x7ff if kind == 'rom' else 3 if kind == 'io' else 0xf
        addr = h.windows[0][1]
        v.check('programmed with the assigned address', v.eq(w & ~lowbits, addr))
        allocated(v, '', sp, old, new, size, h.windows[0], addr)
        if kind == 'rom':
            v.check('reported', v.And(v.eq(dev.expansion_rom_addr, addr), dev.expansion_rom_window is h.windows[0]))
        else:
            v.check('reported', v.And(v.eq(dev.bar_addr[b], addr), dev.bar_window[b] is h.windows[0]))
    v.loops = BarLoop(v, 'assign_bars', b, after)
    v.run(dev.assign_bars(count, rom))
    if kind in ('rom', 'norom'):
        v.cover('m')
        done()
    elif not seen:
        raise NoSuchState('loop over the BARs')


def assign_bars_concrete(v, P, h, hb, dev, count, rom):
    """all BARs of an arbitrary function at once (bounded falsification)"""
    v.cover('m')
    old = {s: v.int(s + ' limit before', 1, 1 << 30) for s in SPACES}
    if v.bool('aligned'):
        old = {s: x & ~0xfff | 0x1000 for s, x in old.items()}
    set_limits(v, hb, old)
    b = 0
    bars = []
    dev.bar_raw = [None] * 6
    dev.bar_size = [None] * 6
    while b < count:
        k = v.choice('kind%d' % b, ['none', 'io', 'm32', 'm64'] if b < count - 1 else ['none', 'io', 'm32'])
        if k == 'none':
            dev.bar_raw[b] = dev.bar_size[b] = 0
        else:
            flags, pf = bar_flags(v, k, str(b))
            s = 1 << v.int('k%d' % b, 2 if k == 'io' else 4, 40 if k == 'm64' and pf else 27)
            dev.bar_size[b] = s
            dev.bar_raw[b] = v.bits('raw%d' % b, 64 if k == 'm64' else 32) & ~(s - 1) | flags
            bars.append((b, k, pf, s))
        b += 2 if k == 'm64' else 1
    if v.bool('rom'):
        s = 1 << v.int('krom', 11, 27)
        dev.expansion_rom_size = s
        dev.expansion_rom_raw = v.bits('rawrom', 32) & ~(s - 1)
        bars.append((None, 'rom', False, s))
    else:
        dev.expansion_rom_size = dev.expansion_rom_raw = 0
    v.run(dev.assign_bars(count, rom))
    v.check('one window', len(h.windows) == len(bars))
    cur = dict(old)
    regs = set()
    for i, (b, k, pf, s) in enumerate(bars):
        sp = space_of(k, pf)
        reg = rom if k == 'rom' else 0x10 + 4 * b
        regs |= set(range(reg, reg + (8 if k == 'm64' else 4)))
        w = h.word(reg)
        if w is not None and k == 'm64' and h.word(reg + 4) is not None:
            w |= h.word(reg + 4) << 32
        addr = dev.expansion_rom_addr if k == 'rom' else dev.bar_addr[b]
        win = dev.expansion_rom_window if k == 'rom' else dev.bar_window[b]
        v.check('programmed with the assigned address', w is not None and
                w & ~(0x7ff if k == 'rom' else 3 if k == 'io' else 0xf) == addr)
        v.check('window is in the right address space', win[0] == ('io' if sp == 'io' else 'mem'))
        v.check('window starts at the assigned address', win[1] == addr)
        v.check('window has the size of the BAR', win[2] == s)
        v.check('naturally aligned', addr % s == 0)
        v.check('behind everything assigned before', addr >= cur[sp])
        cur[sp] = addr + s
    new = limits(v, hb)
    for s in SPACES:
        v.check('everything assigned later lies behind it', new[s] == cur[s])
    v.check('exactly its own register is programmed', set(h.bytes) == regs)


# ------------------------------------------------------------------ sizing

@contract('P21', cases=[(n, k) for n in (6, 2) for k in ('none', 'io', 'm32', 'm64', 'rom', 'norom')], covers=['m'])
def read_bars(v, case):
    """one arbitrary iteration of the probing loop against the real registers: finds the size and kind the BAR was
    configured with, and leaves every BAR register as it was"""
    count, kind = case
    P = v.mod('core.pci')
    f = v.mod('core.endpoint').Endpoint() if count == 6 else v.mod('core.bridge').Bridge()
    h = Host(v, f)
    hb, dev = function(v, P, h)
    rom = 0x30 if count == 6 else 0x38
    if not v.symbolic:
        return read_bars_concrete(v, P, f, h, dev, count, rom)
    # neighbours
    for j in range(count):
        f.configure_bar(j, 4096)
        cfg_write(v, f, 4 + j, 0x1234_5678)
    seen = []
    old = None
    if kind in ('rom', 'norom'):
        b = count
        if kind == 'rom':
            size = pow2(v, 'size', 11, 31)
            f.expansion_rom_addr_mask = M32 & ~(size - 1)
            cfg_write(v, f, rom // 4, v.bits('value', 32))
            old = cfg_read(v, f, rom // 4)
        else:
            f.expansion_rom_addr_mask = 0
            size = 0
    else:
        b = v.choice('index', range(count - 1 if kind == 'm64' else count))
        if kind == 'none':
            size = 0
            v.put(f, 'bar_mask', list(f.bar_mask))
            f.bar_mask[b] = 0
            f.bar[b] = 0
        else:
            flags, pf = bar_flags(v, kind, '')
            size = pow2(v, 'size', 2 if kind == 'io' else 4, 63 if kind == 'm64' else 31)
            f.configure_bar(b, size, kind == 'm64', pf, kind == 'io')
            cfg_write(v, f, 4 + b, v.bits('value', 32))
            old = cfg_read(v, f, 4 + b)
            if kind == 'm64':
                cfg_write(v, f, 5 + b, v.bits('value2', 32))
                old = old | cfg_read(v, f, 5 + b) << 32
    regs = list(range(4, 4 + count)) + [rom // 4]
    before = [cfg_read(v, f, r) for r in regs]

    def after(nb):
        seen.append(nb)
        v.cover('m')
        v.check('goes on with the next BAR', nb == b + (2 if kind == 'm64' else 1))
        if kind == 'none':
            v.check('absent BAR is found absent', not dev.bar_size[b])
        else:
            v.check('size is found', v.eq(dev.bar_size[b], size))
            v.check('kind is found', v.eq(dev.bar_raw[b] & 0xf, old & 0xf))
        restored()

    def restored():
        for r, x in zip(regs, before):
            v.check('registers are restored', v.eq(cfg_read(v, f, r), x))
    v.loops = BarLoop(v, 'read_bars', b, after)
    v.run(dev.read_bars(count, rom))
    if kind in ('rom', 'norom'):
        v.cover('m')
        if kind == 'rom':
            v.check('size of the ROM is found', v.eq(dev.expansion_rom_size, size))
        else:
            v.check('absent ROM is found absent', not dev.expansion_rom_size)
        restored()
    elif not seen:
        raise NoSuchState('loop over the BARs')


def read_bars_concrete(v, P, f, h, dev, count, rom):
    v.cover('m')
    b = 0
    bars = []
    while b < count:
        k = v.choice('kind%d' % b, ['none', 'io', 'm32', 'm64'] if b < count - 1 else ['none', 'io', 'm32'])
        s = 0
        if k != 'none':
            flags, pf = bar_flags(v, k, str(b))
            s = 1 << v.int('k%d' % b, 2 if k == 'io' else 4, 63 if k == 'm64' else 31)
            f.configure_bar(b, s, k == 'm64', pf, k == 'io')
            cfg_write(v, f, 4 + b, v.bits('value%d' % b, 32))
            if k == 'm64':
                cfg_write(v, f, 5 + b, v.bits('upper%d' % b, 32))
        bars.append((b, k, s))
        b += 2 if k == 'm64' else 1
    rs = 0
    if v.bool('rom'):
        rs = 1 << v.int('krom', 11, 31)
        f.expansion_rom_addr_mask = M32 & ~(rs - 1)
        cfg_write(v, f, rom // 4, v.bits('valuerom', 32))
    regs = list(range(4, 4 + count)) + [rom // 4]
    before = [cfg_read(v, f, r) for r in regs]
    v.run(dev.read_bars(count, rom))
    for r, x in zip(regs, before):
        v.check('registers are restored', cfg_read(v, f, r) == x)
    for b, k, s in bars:
        if k == 'none':
            v.check('absent BAR is found absent', not dev.bar_size[b])
        else:
            v.check('size is found', dev.bar_size[b] == s)
            v.check('kind is found', dev.bar_raw[b] & 0xf == before[b] & 0xf)
    if rs:
        v.check('size of the ROM is found', dev.expansion_rom_size == rs)
    else:
        v.check('absent ROM is found absent', not dev.expansion_rom_size)


@contract('P21', cases=[0, 1, 2], covers=['m'])
def assign_by_header(v, hdr):
    """a function assigns its six BARs and ROM, a bridge its two and its ROM, each where that header has them"""
    P = v.mod('core.pci')
    hb, dev = function(v, P, Host(v))
    got = []

    async def bars(n, rom, *a):
        got.append((n, rom))
    v.put(dev, 'assign_bars', bars)
    dev.header_type = hdr
    v.run(dev.assign_resources())
    v.cover('m')
    v.check('BARs of the header', got == {0: [(6, 0x30)], 1: [(2, 0x38)], 2: []}[hdr])


# ------------------------------------------------------------------ windows of bridges

GRAIN = {'io': 1 << 12, 'mem': 1 << 20, 'prefetchable_mem': 1 << 20}


class Devices:
    """contract of the loop over the devices of a bus: one arbitrary iteration"""
    def __init__(self, v, fn, dev):
        self.v, self.fn, self.dev = v, fn, dev
        self.used = self.given = False

    def attach(self, lc):
        if self.used or lc.site[3] != 'for' or not is_fn(lc, PCI, self.fn) or type(lc.seq) is not list \
                or lc.seq != [self.dev]:
            return None
        self.used = True
        return self

    def head(self, lc, loc):
        return locals_for(lc, {}) if lc.site[4] else None

    def next(self, lc):
        from vc.load import STOP
        if not self.given:
            self.given = True
            return self.dev
        return STOP


def grow(v, what, b, k):
    """limits of b move up by arbitrary amounts (contract of an assignment); -> new limits"""
    new = {}
    for s in SPACES:
        old = getattr(b, s + '_limit')
        n = v.int('%s %s' % (what, s), 0, TOP[s] - (k << 20))
        if not v.symbolic:
            n = old + v.int('%s %s by' % (what, s), 0, 1 << 40 if s == 'prefetchable_mem' else 1 << 26) \
                if v.bool('%s %s grows' % (what, s)) else old
        v.assume(n >= old)
        setattr(b, s + '_limit', n)
        new[s] = n
    return new


@contract('P21', cases=['plain', 'bridge'], covers=['m'])
def bus_resources(v, kind):
    """one arbitrary iteration over the devices of a bus: the device's own BARs come first; what is behind a bridge lies
    in a window that starts behind everything assigned before, is a multiple of the bridge's granularity, covers what
    was used behind it and no more than that rounded up; the parent's window goes on behind it"""
    P = v.mod('core.pci')
    h = Host(v)
    hb, dev = function(v, P, h)
    bus = hb.bus
    v.put(bus, 'devices', [dev])
    old = {s: v.int(s + ' limit', 1, (1 << 64) - (1 << 30) if s == 'prefetchable_mem' else (1 << 31)) for s in SPACES}
    set_limits(v, hb, old)
    log = []
    state = {}

    async def own():
        log.append('own')
        state['own'] = grow(v, 'own', hb, 8)
    v.put(dev, 'assign_resources', own)
    if kind == 'bridge':
        child = P.PciBus(bus, dev, 7)
        v.check('the bridge knows its bus', dev.subordinate is child and child.bridge is dev)

        async def behind():
            log.append('behind')
            state['base'] = {s: getattr(dev, s + '_base') for s in SPACES}
            state['start'] = limits(v, dev)
            state['end'] = grow(v, 'behind', dev, 4)
        v.put(child, 'assign_resources', behind)

        async def setup():
            log.append('setup')
            state['win'] = {s: (getattr(dev, s + '_base'), getattr(dev, s + '_limit')) for s in SPACES}
        v.put(dev, 'setup_bridge', setup)
    if v.symbolic:
        v.loops = Devices(v, 'PciBus.assign_resources', dev)
    v.run(bus.assign_resources())
    v.cover('m')
    new = limits(v, hb)
    if kind == 'plain':
        v.check('its BARs are assigned, once', log == ['own'])
        for s in SPACES:
            v.check('parent window covers its BARs', v.eq(new[s], state['own'][s]))
        return
    v.check('own BARs, then everything behind, then the window, each once', log == ['own', 'behind', 'setup'])
    for s in SPACES:
        g = GRAIN[s]
        base, limit = state['win'][s]
        own_, end = state['own'][s], state['end'][s]
        v.check('what is behind starts at the base', v.And(v.eq(state['base'][s], state['start'][s]),
                                                           v.eq(state['base'][s], base)))
        v.check('window is behind everything assigned before', base >= own_)
        v.check('no larger gap than alignment needs', base - own_ < g)
        v.check('base fits the register', v.eq(base & (g - 1), 0))
        v.check('limit fits the register', v.eq((limit + 1) & (g - 1), 0))
        v.check('window covers what is behind', limit + 1 >= end)
        v.check('and no more', limit + 1 - end < g)
        v.check('parent window covers the window and goes on behind it', v.eq(new[s], limit + 1))


@contract('P21', covers=['m', 'empty'], fuzz=400)
def window_registers(v):
    """the registers of a real bridge, from any earlier values, decode to the assigned windows; an empty window has its
    base above its limit"""
    P = v.mod('core.pci')
    br = v.mod('core.bridge').Bridge()
    h = Host(v, br)
    hb, dev = function(v, P, h)
    br.io_base, br.io_limit = v.bits('was io base', 20) << 12, v.bits('was io limit', 20) << 12 | 0xfff
    br.mem_base, br.mem_limit = v.bits('was mem base', 12) << 20, v.bits('was mem limit', 12) << 20 | 0xfffff
    br.prefetchable_mem_base = v.bits('was pf base', 44) << 20
    br.prefetchable_mem_limit = v.bits('was pf limit', 44) << 20 | 0xfffff
    w = {}
    for s in SPACES:
        n = {'io': 20, 'mem': 12, 'prefetchable_mem': 44}[s]
        g = GRAIN[s]
        base = v.int(s + ' base', 1, (1 << n) - 1)
        if v.symbolic:
            end = v.int(s + ' end', 1, 1 << n)
            v.assume(end >= base)
        else:
            end = min(1 << n, base + v.int(s + ' size', 0, 4))
        w[s] = (base * g, end * g - 1)
        v.put(dev, s + '_base', base * g)
        v.put(dev, s + '_limit', end * g - 1)
        if v.truth(v.eq(base, end)) is not False:
            v.cover('empty')
    v.run(dev.setup_bridge())
    v.cover('m')
    for s in SPACES:
        v.check('base decodes to the assigned one', v.eq(getattr(br, s + '_base'), w[s][0]))
        v.check('limit decodes to the assigned one', v.eq(getattr(br, s + '_limit'), w[s][1]))
    v.check('only this bridge is programmed', all(i is dev.pcie_id for i in h.ids) or
            v.And(*[id_eq(v, i, dev.pcie_id) for i in h.ids]))


# ------------------------------------------------------------------ bus numbers

@contract('P21', covers=['m'], fuzz=300)
def scan_bridge(v):
    """a bridge gets the next free bus number; while the buses behind it are scanned it claims all numbers from there
    on; afterwards exactly those that were used; the scan of the parent goes on behind them"""
    P = v.mod('core.pci')
    br = v.mod('core.bridge').Bridge()
    h = Host(v, br)
    hb, dev = function(v, P, h)
    pri = v.int('bus', 0, 200)
    bus = P.PciBus(None, hb, pri, rc=h)
    v.put(dev, 'bus', bus)
    br.pri_bus_num, br.sec_bus_num, br.sub_bus_num = v.bits('was pri', 8), v.bits('was sec', 8), v.bits('was sub', 8)
    br.sec_lat_timer = v.bits('latency', 8)
    first = v.int('first', 0, 254)
    v.assume(first >= pri)
    last = v.int('last', 1, 255)
    v.assume(last > first)
    calls = []

    async def scan(self, *a, **k):
        calls.append(self)
        v.check('next free bus number', v.eq(self.bus_num, first + 1))
        v.check('bus belongs to the bridge', self.parent is bus and self.bridge is dev and dev.subordinate is self)
        v.check('bus is in the tree', any(x is self for x in bus.children))
        v.check('primary bus number', v.eq(br.pri_bus_num, pri))
        v.check('secondary bus number', v.eq(br.sec_bus_num, first + 1))
        v.check('claims everything behind while scanning', v.eq(br.sub_bus_num, 255))
        v.check('timeout is passed on', k.get('timeout', a[1:2]) in (77, (77,)))
        return last
    v.patch(P.PciBus, 'scan', scan)
    r = v.run(bus.scan_bridge(dev, first, timeout=77))
    v.cover('m')
    v.check('buses behind are scanned, once', len(calls) == 1)
    v.check('scan goes on behind the buses used', v.eq(r, last))
    v.check('primary bus number stays', v.eq(br.pri_bus_num, pri))
    v.check('secondary bus number stays', v.eq(br.sec_bus_num, first + 1))
    v.check('claims exactly the buses used', v.eq(br.sub_bus_num, last))
    v.check('known to the model', v.eq(calls[0].last_bus_num, last))


class Hardware:
    """ghost hardware on one bus: what each slot answers to a read of its first register"""
    def __init__(self, v, bus_num):
        self.v, self.bus_num = v, bus_num
        self.words = {}
        self.busy = {}
        self.asked = []
        self.log = Quiet()

    async def config_read_dword(self, dev, addr, *a, **k):
        return self.answer(dev)

    def answer(self, dev):
        key = (dev.device, dev.function)
        if self.busy.get(key, 0) > 0:
            self.busy[key] -= 1
            return 0xffff0001
        return self.words.get(key, 0xffffffff)


class ScanLoops:
    """contracts of the loops of PciBus.scan: slots, functions of a slot, bridges found"""
    def __init__(self, v, g):
        self.v, self.g = v, g
        self.n = 0

    def attach(self, lc):
        if not is_fn(lc, PCI, 'PciBus.scan') or lc.site[3] != 'for':
            return None
        self.n += 1
        if self.n == 1 and type(lc.seq) is range:
            return _Slots(self.v, self.g)
        if self.n == 2 and type(lc.seq) is range and self.g.bridge is None:
            return _Functions(self.v, self.g)
        if lc.seq == [self.g.bridge] and self.g.bridge is not None:
            return _Bridges(self.v, self.g)
        if lc.seq == [] or type(lc.seq) is list and self.g.bridge is None:
            return None
        raise NoSuchState('loops of the bus scan')


class _Slots:
    """an arbitrary slot; the loop then goes on (end of this path) or ends"""
    def __init__(self, v, g):
        self.v, self.g = v, g

    def head(self, lc, loc):
        if lc.count == 1:
            self.v.check('every device number is tried', lc.seq == range(32))
            return locals_for(lc, {})
        self.g.slot_done(True)
        self.v.stop()

    def next(self, lc):
        from vc.load import STOP
        return STOP if self.g.bridge is not None else self.g.slot


class _Functions:
    """an arbitrary function of the slot"""
    def __init__(self, v, g):
        self.v, self.g = v, g

    def head(self, lc, loc):
        if lc.count == 1:
            self.v.check('every function number is tried', lc.seq == range(8))
            return locals_for(lc, {})
        self.g.function_done(True)
        self.v.stop()

    def next(self, lc):
        return self.g.begin_function()


class _Bridges:
    """an arbitrary bridge, after any number of buses have been used up"""
    def __init__(self, v, g):
        self.v, self.g = v, g
        self.given = False

    def head(self, lc, loc):
        g = self.g
        if lc.count == 1:
            names = [n for n in lc.site[4] if n in loc and loc[n] is g.bus_num]
            if len(names) != 1:
                raise NoSuchState('last bus number')
            self.name = names[0]
            return locals_for(lc, {self.name: g.used})
        self.v.check('goes on behind the buses used', self.v.eq(loc[self.name], g.result))
        return None

    def next(self, lc):
        from vc.load import STOP
        if not self.given:
            self.given = True
            return self.g.bridge
        return STOP


def absent(v, w):
    return v.Or(v.eq(w & 0xffff, 0xffff), v.eq(w, 0), v.eq(w, 0xffff0000))


class Slot:
    bridge = None

    def __init__(self, v, P, hw, bus, only):
        self.v, self.P, self.hw, self.bus, self.only = v, P, hw, bus, only
        self.setups = []
        self.fn = None

    def install(self):
        g = self

        async def setup(dev):
            g.setups.append(dev)
            g.v.check('identified before it is set up', g.v.And(g.v.eq(dev.pcie_id.bus, g.hw.bus_num)))
            dev.header_type = 0
            dev.multifunction = g.multi
        g.v.patch(g.P.PciDevice, 'setup', setup)


@contract('P21', cases=['root', 'port', 'bridge'], covers=['found', 'none', 'goes on'], fuzz=60)
def scan_slots(v, where):
    """an arbitrary slot and an arbitrary function of it: exactly the functions that are there are found, each once, under
    their own IDs (precondition: all functions of a multi-function device say so)"""
    P = v.mod('core.pci')
    v.mod('cocotb').reset()
    num = 0 if where == 'root' else v.int('bus', 1, 255)
    hw = Hardware(v, num)
    hb = P.PciHostBridge(hw)
    if where == 'root':
        bus = hb.bus
    else:
        up = P.PciDevice(hb.bus)
        up.header_type = 1
        if where == 'port':
            up.capabilities = [(v.mod('core.caps').PciCapId.EXP, 0x40)]
            up.pcie_capabilities_reg = v.choice('port', [4, 6, 8]) << 4
        else:
            up.pcie_capabilities_reg = 0
        bus = P.PciBus(hb.bus, up, num)
    if not v.symbolic:
        return scan_concrete(v, P, hw, bus, where)
    g = Slot(v, P, hw, bus, where == 'port')
    g.install()
    g.slot = v.int('slot', 0, 31)
    g.multi = v.choice('multi', [False, True])
    answers = {}
    how = v.choice('answer', ['word', 'late', 'never'])
    first = v.bits('word0', 32)
    state = {'reads': 0, 'fn': None}

    async def read(dev, addr, *a, **k):
        v.check('vendor and device ID are read', addr == 0)
        v.check('in this slot', v.And(v.eq(dev.bus, num), v.eq(dev.device, g.slot)))
        if state['fn'] is None:
            v.check('function 0 tells whether the slot is occupied', v.eq(dev.function, 0))
            state['reads'] += 1
            if how == 'never' or how == 'late' and state['reads'] == 1:
                return 0xffff0001
            return first
        v.check('of this function', v.eq(dev.function, state['fn']))
        return state['word']
    hw.config_read_dword = read
    if how == 'word':
        v.assume(v.Not(v.eq(first, 0xffff0001)))
    else:
        v.assume(v.Not(v.Or(absent(v, first), v.eq(first, 0xffff0001))))

    def begin_function():
        f = v.int('function', 0, 7)
        state['fn'] = f
        w = v.bits('word', 32)
        state['word'] = w
        # precondition: a function is there (a valid vendor ID) or answers with all ones; function 0 is there
        v.assume(v.Or(v.eq(w, 0xffffffff), v.Not(v.Or(absent(v, w), v.eq(w, 0xffff0001)))))
        v.assume(v.Implies(v.eq(f, 0), v.eq(w, first)))
        return f
    g.begin_function = begin_function

    def function_done(on):
        w, f = state['word'], state['fn']
        if v.eq(w, 0xffffffff):
            v.check('absent function is not found', not bus.devices and on)
            v.cover('none')
            return
        v.cover('found')
        v.check('function is found, once', len(bus.devices) == 1 and g.setups == bus.devices)
        d = bus.devices[0]
        v.check('under its own ID', v.And(v.eq(d.pcie_id.bus, num), v.eq(d.pcie_id.device, g.slot),
                                          v.eq(d.pcie_id.function, f)))
        v.check('vendor and device ID', v.And(v.eq(d.vendor_id, w & 0xffff), v.eq(d.device_id, w >> 16)))
        v.check('belongs to this bus', d.bus is bus)
        v.check('further functions are looked for exactly in a multi-function device', on == g.multi)
    g.function_done = function_done

    def slot_done(on):
        v.cover('goes on')
        if state['fn'] is None:
            v.check('a slot is left out only if it is empty or never answers',
                    v.Or(how == 'never', absent(v, first), v.And(where == 'root', v.eq(g.slot, 0))))
            v.check('nothing is found in it', not bus.devices)
            return
        # left the function loop
        function_done(False)
        v.check('the only child of a port ends the search', where != 'port')
    g.slot_done = slot_done
    v.loops = ScanLoops(v, g)
    r = v.run(bus.scan(timeout=5))
    function_done(False)
    v.cover('goes on')
    v.check('the search ends early only below a port', where == 'port')
    v.check('no bus is used behind it', v.eq(r, num))


def scan_concrete(v, P, hw, bus, where):
    """an arbitrary population of the bus (bounded falsification)"""
    for c in ('found', 'none', 'goes on'):
        v.cover(c)
    exp = []
    multi = {}
    slots = [0] if where == 'port' else range(1 if where == 'root' else 0, 32)
    dens = v.choice('density', [1, 3, 8])
    for d in slots:
        if v.int('slot%d' % d, 0, dens):
            continue
        fs = [0]
        if v.bool('multi%d' % d):
            fs += [f for f in range(1, 8) if v.bool('fn%d.%d' % (d, f))]
        multi[d] = len(fs) > 1
        for f in fs:
            w = v.int('vendor%d.%d' % (d, f), 2, 0xfffe) | v.bits('device%d.%d' % (d, f), 16) << 16
            hw.words[d, f] = w
            exp.append(((d, f), w))
        if v.int('crs%d' % d, 0, 5) == 0:
            hw.busy[d, 0] = v.int('busy%d' % d, 1, 5)
    setups = []

    async def setup(dev):
        setups.append(dev)
        dev.header_type = 0
        dev.multifunction = multi[dev.device_num]
    v.patch(P.PciDevice, 'setup', setup)
    r = v.run(bus.scan(timeout=5))
    got = [((d.pcie_id.device, d.pcie_id.function), d.vendor_id | d.device_id << 16) for d in bus.devices]
    v.check('exactly the functions that are there are found, each once', sorted(got) == sorted(exp))
    v.check('under their own IDs', all(d.pcie_id.bus == bus.bus_num for d in bus.devices))
    v.check('function is found, once', len(setups) == len(exp) and all(a is b for a, b in zip(setups, bus.devices)))
    v.check('no bus is used behind it', r == bus.bus_num)


@contract('P21', covers=['m', 'plain'], fuzz=300)
def scan_bridges(v):
    """an arbitrary iteration over the functions found: a bridge's buses are numbered behind all numbers used so far, and
    the last number used is reported; other functions use none"""
    P = v.mod('core.pci')
    v.mod('cocotb').reset()
    num = v.int('bus', 1, 200)
    hw = Hardware(v, num)
    hb = P.PciHostBridge(hw)
    up = P.PciDevice(hb.bus)
    up.pcie_capabilities_reg = 0
    bus = P.PciBus(hb.bus, up, num)
    calls = []

    class G:
        pass
    g = G()
    g.bus_num = num
    kinds = [v.choice('kind', [0, 1])] if v.symbolic else [v.choice('kind%d' % i, [0, 1]) for i in range(
        v.int('devices', 0, 4))]
    devs = []
    for i, k in enumerate(kinds):
        d = P.PciDevice(bus)
        d.pcie_id = (5, i, 0)
        d.header_type = k
        devs.append(d)
    v.put(bus, 'devices', devs)
    used = num
    if v.symbolic:
        g.bridge = devs[0]
        used = g.used = v.int('used', 1, 254)
        v.assume(used >= num)
        g.slot_done = lambda on: None
    ends = []

    async def scan_bridge(dev, first, *a, **k):
        last = v.int('last%d' % len(calls), 2, 255)
        if not v.symbolic:
            last = min(255, (ends[-1] if ends else used) + 1 + last % 8)
        v.assume(last > first)
        calls.append((dev, first))
        ends.append(last)
        g.result = last
        return last
    g.result = used
    v.put(bus, 'scan_bridge', scan_bridge)
    if v.symbolic:
        v.loops = ScanLoops(v, g)
    r = v.run(bus.scan(timeout=5))
    v.cover('m')
    br = [d for d in devs if d.header_type]
    if len(br) < len(devs):
        v.cover('plain')
    v.check('each bridge is scanned once, in order', len(calls) == len(br) and all(
        c[0] is d for c, d in zip(calls, br)))
    want = used
    for c, e in zip(calls, ends):
        v.check('buses behind it are numbered behind those used', v.eq(c[1], want))
        want = e
    v.check('the last number used is reported', v.eq(r, want))


@contract('P21', covers=['m'], fuzz=200)
def enumerate_root(v):
    """enumeration starts the host bridge's windows empty at the root complex' bases and afterwards the root complex routes
    exactly the assigned windows downstream"""
    v.mod('cocotb').reset()
    R = v.mod('core.rc').RootComplex()
    base = {s: v.int(s + ' base', 1, TOP[s] - 1) for s in SPACES}
    for s in SPACES:
        v.put(R, s + '_base', base[s])
        v.put(R, s + '_limit', v.int(s + ' old', 1, TOP[s]))
    end = {}
    hb = R.host_bridge

    async def probe(*a, **k):
        for s in SPACES:
            v.check('windows start at the base', v.And(v.eq(getattr(hb, s + '_base'), base[s]),
                                                       v.eq(getattr(hb, s + '_limit'), base[s])))
        end.update(grow(v, 'used', hb, 0) if v.symbolic else {
            s: min(TOP[s], base[s] + v.int('used ' + s, 0, 1 << 28)) for s in SPACES})
        for s in SPACES:
            setattr(hb, s + '_limit', end[s])
    v.put(hb, 'probe', probe)
    v.run(R.enumerate())
    v.cover('m')
    ub = R.upstream_bridge
    for s in SPACES:
        v.check('probed once', len(end) == 3)
        v.check('window of the root complex starts at the base', v.eq(getattr(ub, s + '_base'), base[s]))
        v.check('window of the root complex covers exactly the used range', v.eq(getattr(ub, s + '_limit') + 1, end[s]))
        v.check('limit reported', v.eq(getattr(R, s + '_limit'), end[s]))


@contract('P21', covers=['m'])
def probe(v):
    """probing scans the bus from bus 0 and then assigns the resources"""
    P = v.mod('core.pci')
    v.mod('cocotb').reset()
    hb = P.PciHostBridge(Host(v))
    log = []
    last = v.bits('last', 8)

    async def scan(*a, **k):
        log.append(('scan', k.get('timeout')))
        return last

    async def assign():
        log.append(('assign', None))
    v.check('root bus', hb.bus.bus_num == 0 and hb.bus.is_root() and hb.bus.bridge is hb)
    v.put(hb.bus, 'scan', scan)
    v.put(hb.bus, 'assign_resources', assign)
    v.run(hb.probe(timeout=9))
    v.cover('m')
    v.check('scan, then assignment', log == [('scan', 9), ('assign', None)])
    v.check('last bus is known', v.eq(hb.bus.last_bus_num, last))


# ------------------------------------------------------------------ everything together (bounded)

class Mem:
    """backing store of one region of an endpoint"""
    def __init__(self):
        self.writes = []

    async def read(self, addr, n):
        return bytes(n)

    async def write(self, addr, data):
        self.writes.append((addr, bytes(data)))


TREES = {
    'flat': ['e', 'e', 'e'],
    'switch': [['e', 'e'], 'e'],
    'deep': [[[['e']], 'e'], []],
    'wide': [['e', ['e', 'e'], 'e'], ['e'], 'm'],
    'multi': ['m', ['m', 'm'], 'e'],
    'nothing behind': [[], 'e', [[]]],
}


def build(v, up, spec, path, eps, sws):
    m = v.mod('core.device'), v.mod('core.switch'), v.mod('core.endpoint')
    for i, s in enumerate(spec):
        name = '%s.%d' % (path, i)
        port = up.make_port()
        if isinstance(s, list):
            sw = m[1].Switch()
            port.connect(sw)
            build(v, sw, s, name, eps, sws)
            sws.append(sw)
            continue
        n = v.int('functions' + name, 2, 4) if s == 'm' else 1
        fs = []
        for f in range(n):
            ep = m[2].MemoryEndpoint()
            ep.vendor_id, ep.device_id = 0x1234, 0x100 + len(eps)
            ep.mem = []
            b = 0
            for r in range(v.int('regions%s.%d' % (name, f), 0, 3)):
                k = v.choice('region%s.%d.%d' % (name, f, r), ['io', 'mem', 'pf'])
                if b + (2 if k == 'pf' else 1) > 6:
                    break
                bits = v.int('bits%s.%d.%d' % (name, f, r), 4, 30 if k == 'pf' else 14 if k == 'io' else 23)
                x = Mem()
                {'io': ep.add_io_region, 'mem': ep.add_mem_region, 'pf': ep.add_prefetchable_mem_region}[k](
                    1 << bits, x.read, x.write)
                ep.mem.append((b, k, 1 << bits, x))
                b += 2 if k == 'pf' else 1
            fs.append(ep)
            eps.append(ep)
        dev = m[0].Device()
        for ep in fs:
            dev.append_function(ep)
        port.connect(dev)


@contract('P21', cases=sorted(TREES), covers=['m'], bounded='the device trees of TREES, up to three regions per function',
          fuzz=3)
def whole_tree(v, shape):
    """real root complex, ports, switches and endpoints: after enumeration the BARs of all functions are disjoint, aligned
    and reachable, bus numbers unique and nested, windows nested"""
    v.mod('cocotb').reset()
    v.cover('m')
    R = v.mod('core.rc').RootComplex()
    eps, sws = [], []
    if v.symbolic:
        # one fixed population; the others are random
        class Fixed:
            def __init__(self, v):
                self.n = 0
                self.mod = v.mod

            def int(self, name, lo, hi):
                self.n += 5
                return lo + self.n % (hi - lo + 1)

            def choice(self, name, o):
                self.n += 1
                return o[self.n % len(o)]
        w = Fixed(v)
    else:
        w = v
    build(w, R, TREES[shape], '', eps, sws)
    v.run(R.enumerate(), fresh=False)
    check_tree(v, R, eps, sws)


def pci_devices(bus):
    out = []
    for d in bus.devices:
        out.append(d)
        if d.subordinate:
            out += pci_devices(d.subordinate)
    return out


def check_tree(v, R, eps, sws):
    devs = pci_devices(R.host_bridge.bus)
    ids = [tuple(d.pcie_id) for d in devs]
    v.check('no ID twice', len(set(ids)) == len(ids))
    v.check('every function is found', sorted(d.device_id for d in devs if d.header_type == 0) == sorted(
        e.device_id for e in eps))
    buses = []

    def nest(bus, lo, hi):
        v.check('bus numbers are nested', lo <= bus.bus_num <= hi)
        buses.append(bus.bus_num)
        for c in bus.children:
            v.check('bus numbers are nested', c.bus_num <= c.last_bus_num <= hi)
            nest(c, max(lo, c.bus_num), c.last_bus_num)
    nest(R.host_bridge.bus, 0, 255)
    v.check('bus numbers are unique', len(set(buses)) == len(buses))
    rng = {'io': [], 'mem': []}
    for e in eps:
        d = [x for x in devs if x.device_id == e.device_id]
        if len(d) != 1:
            continue
        d = d[0]
        v.check('ID is captured', tuple(e.pcie_id) == tuple(d.pcie_id))
        for b, k, size, x in e.mem:
            a = d.bar_addr[b]
            v.check('BAR is assigned', a is not None and d.bar_size[b] == size)
            v.check('naturally aligned', a % size == 0)
            v.check('register decodes to the assigned address', e.match_bar(a, k == 'io') == (b, 0) and
                    e.match_bar(a + size - 1, k == 'io') == (b, size - 1))
            rng['io' if k == 'io' else 'mem'].append((a, a + size))
            # every bridge above routes it
            up = d.bus
            while not up.is_root():
                p = up.bridge
                if k == 'io':
                    ok = p.io_base <= a and a + size - 1 <= p.io_limit
                else:
                    ok = p.mem_base <= a and a + size - 1 <= p.mem_limit or \
                        p.prefetchable_mem_base <= a and a + size - 1 <= p.prefetchable_mem_limit
                v.check('inside the window of every bridge above', ok)
                up = up.parent
    for k in rng:
        r = sorted(rng[k])
        v.check('no two BARs overlap', all(x[1] <= y[0] for x, y in zip(r, r[1:])))
    # reachability, through the real packets
    for e in eps:
        d = [x for x in devs if x.device_id == e.device_id]
        if len(d) != 1 or not e.mem:
            continue
        v.run(d[0].enable_device(), fresh=False)
        for b, k, size, x in e.mem:
            for off in sorted({0, size - 4}):
                v.run(d[0].bar_window[b].write(off, b'\x5a\x01\x02\x03'), fresh=False)
                v.mod('cocotb').sim.run_for(10**9)
                v.check('a write to the window reaches the region', x.writes[-1:] == [(off, b'\x5a\x01\x02\x03')])

"""Setting up and enabling functions from the root complex (P27): which register fields are programmed, that nothing else
changes, that bridges above are enabled, and that the capabilities found are the ones that are there."""
from vc.reg import contract
from vc.contracts._common import mk_id
from vc.contracts.c_enum import Host
from vc.explore import NoSuchState

CAPS = {'EXP': 0x40, 'MSI': 0xa0, 'MSIX': 0xd0}


class Regs(Host):
    """ghost configuration space of one function: any contents; status registers are write one to clear, all other bits
    are taken to be writable (the strongest requirement on what is written)"""
    def __init__(self, v, caps=(), name=''):
        super().__init__(v)
        self.init, self.now, self.name, self.writes = {}, {}, name, 0
        self.rw1c = {0x06, 0x07, 0x1e, 0x1f}
        if 'EXP' in caps:
            self.rw1c = {0x06, 0x07} | {CAPS['EXP'] + o for o in (0x0a, 0x0b, 0x12, 0x13, 0x1a, 0x1b, 0x20, 0x21, 0x22, 0x23,
                                                                  0x32, 0x33)}

    def at(self, a):
        if a not in self.init:
            self.init[a] = self.now[a] = self.v.bits('%sr%02x' % (self.name, a), 8)
        return self.now[a]

    def was(self, a, n=1):
        self.at(a)
        r = 0
        for i in range(n):
            self.at(a + i)
            r |= self.init[a + i] << 8 * i
        return r

    async def config_read(self, dev, addr, length, *a, **k):
        self.ids.append(dev)
        return self.v.mk_bytes([self.at(i) for i in range(addr, addr + length)], mutable=True)

    async def config_write(self, dev, addr, data, *a, **k):
        self.ids.append(dev)
        self.writes += 1
        for i in range(self.v.len(data)):
            b = self.v.byte(data, i)
            old = self.at(addr + i)
            self.now[addr + i] = old & ~b & 0xff if addr + i in self.rw1c else b

    def changed(self, what, fields=()):
        """exactly these fields changed: (address, mask, value) of 8, 16 or 32 bits"""
        v = self.v
        for a, m, x in fields:
            for i in range(4):
                if m >> 8 * i & 0xff:
                    self.at(a + i)
        for a in sorted(self.now):
            want = self.init[a]
            for base, m, x in fields:
                i = a - base
                if 0 <= i < 4:
                    mb = m >> 8 * i & 0xff
                    want = want & (0xff ^ mb) | x >> 8 * i & mb
            v.check('%s: exactly the fields meant change' % what, v.eq(self.now[a], want))
        if not self.now:
            v.check('%s: nothing is written' % what, self.writes == 0)


def function(v, caps=('EXP', 'MSI', 'MSIX'), name='', bus=None):
    """-> the root complex' view of a function with these capabilities, its registers"""
    P, C = v.mod('core.pci'), v.mod('core.caps')
    h = Regs(v, caps, name)
    if bus is None:
        bus = P.PciHostBridge(h).bus
    dev = P.PciDevice(bus)
    v.put(dev, 'rc', h)
    dev.pcie_id = mk_id(v, v.mod('core.utils'), name + 'id')
    dev.capabilities = [(getattr(C.PciCapId, c), CAPS[c]) for c in caps]
    dev.header_type = 0
    return dev, h


EXP = CAPS['EXP']
NO_CAP = ('MSI', 'MSIX')


@contract('P27', cases=['decode', 'master on', 'master off', 'clear'], covers=['m'])
def command(v, op):
    """bits of the command register"""
    dev, h = function(v)
    dev.is_busmaster = v.choice('was', [False, True])
    if op == 'decode':
        v.run(dev.enable_resources(0))
        f = [(4, 3, 3)]
    elif op == 'master on':
        v.run(dev.set_master())
        f = [(4, 4, 4)]
        v.check('known as bus master', dev.is_busmaster is True)
    else:
        v.run(dev.set_master(False) if op == 'master off' else dev.clear_master())
        f = [(4, 4, 0)]
        v.check('no longer known as bus master', dev.is_busmaster is False)
    v.cover('m')
    h.changed(op, f)
    v.check('the function addressed', all(x == dev.pcie_id for x in h.ids))


@contract('P27', cases=['root', 'plain'], covers=['m'])
def crs(v, kind):
    """completion retry visibility is enabled exactly where it is supported"""
    dev, h = function(v, NO_CAP if kind == 'plain' else ('EXP',))
    sup = kind == 'root' and bool(v.eq(h.was(EXP + 0x1e) & 1, 1))
    v.run(dev.enable_crs())
    v.cover('m')
    h.changed('CRS visibility', [(EXP + 0x1c, 0x10, 0x10)] if sup else [])


@contract('P27', cases=['mps', 'readrq'], covers=['set', 'refused'])
def sizes(v, which):
    """payload and read request size: legal values are stored and read back, illegal ones refused"""
    dev, h = function(v)
    dev.pcie_mpss = v.int('supported', 0, 7)
    x = v.int('value', -1, 9)
    sh = 5 if which == 'mps' else 12
    fine = v.And(x >= 0, x <= 5)
    if which == 'mps':
        fine = v.And(fine, x <= dev.pcie_mpss)
    try:
        v.run(dev.set_mps(x) if which == 'mps' else dev.set_readrq(x))
        ok = True
    except ValueError:
        ok = False
    v.check('exactly the legal values are accepted', bool(fine) is ok)
    if not ok:
        v.cover('refused')
        h.changed('refused')
        return
    v.cover('set')
    h.changed(which, [(EXP + 8, 7 << sh, x << sh)])
    r = v.run(dev.get_mps() if which == 'mps' else dev.get_readrq())
    v.check('reads back', v.eq(r, x))


@contract('P27', cases=['mps', 'readrq'], covers=['m'])
def current_size(v, which):
    """the value programmed is the one reported"""
    dev, h = function(v)
    r = v.run(dev.get_mps() if which == 'mps' else dev.get_readrq())
    v.cover('m')
    v.check('field of device control', v.eq(r, h.was(EXP + 8, 2) >> (5 if which == 'mps' else 12) & 7))
    h.changed('nothing written')


@contract('P27', cases=['tags', 'no capability', 'serr', 'serr of function'], covers=['m'])
def other_control(v, op):
    """extended tags where supported; error forwarding of bridges"""
    dev, h = function(v, NO_CAP if op == 'no capability' else ('EXP',))
    v.cover('m')
    if op in ('tags', 'no capability'):
        dev.pcie_devcap_reg = v.bits('devcap', 32)
        v.run(dev.configure_extended_tags())
        on = op == 'tags' and bool(v.eq(dev.pcie_devcap_reg >> 5 & 1, 1))
        h.changed('extended tags', [(EXP + 8, 0x100, 0x100)] if on else [])
    else:
        dev.header_type = 1 if op == 'serr' else v.choice('hdr', [0, 2])
        v.run(dev.configure_serr())
        h.changed('error forwarding', [(0x3e, 2, 2)] if op == 'serr' else [])


@contract('P27', cases=[(c, on) for c in ('MSI', 'MSIX') for on in (True, False, 'init', 'absent')], covers=['m'])
def interrupt_enable(v, case):
    """the enable bit of MSI or MSI-X and what is known of it; vector counts"""
    cap, on = case
    dev, h = function(v, tuple(c for c in CAPS if c != cap) if on == 'absent' else tuple(CAPS))
    dev.msi_enabled, dev.msix_enabled = v.choice('was', [False, True]), v.choice('wasx', [False, True])
    other = dev.msix_enabled if cap == 'MSI' else dev.msi_enabled
    p = cap.lower()
    v.cover('m')
    cnt = v.run(v.get(dev, p + '_vec_count')())
    ctrl = h.was(CAPS[cap] + 2, 2)
    v.check('vector count', v.eq(cnt, -1) if on == 'absent' else
            v.eq(cnt, (ctrl & 0x7ff) + 1) if cap == 'MSIX' else
            v.Or(*[v.And(v.eq(ctrl >> 1 & 7, k), v.eq(cnt, 1 << k)) for k in range(8)]))
    if on in ('init', 'absent'):
        v.run(v.get(dev, p + '_init')())
    else:
        v.run(v.get(dev, p + '_set_enable')(on))
    bit = 0x0001 if cap == 'MSI' else 0x8000
    h.changed(cap, [] if on == 'absent' else [(CAPS[cap] + 2, bit, bit if on is True else 0)])
    if on != 'absent':
        v.check('known to be so', v.get(dev, p + '_enabled') is (on is True))
    v.check('the other kind is left alone', (dev.msix_enabled if cap == 'MSI' else dev.msi_enabled) is other)


# ------------------------------------------------------------------ enabling, with everything above

class Above:
    """ghost bridge by the contract of enable_bridge: afterwards it and all bridges above it are enabled"""
    def __init__(self):
        self.enabled = 0

    async def enable_bridge(self):
        self.enabled += 1


@contract('P27', cases=[(op, top) for op in ('device', 'bridge') for top in (True, False)], covers=['first', 'again'])
def enable(v, case):
    """enabling a function enables decoding, and everything above it; a bridge also becomes bus master"""
    op, top = case
    P = v.mod('core.pci')
    dev, h = function(v)
    above = Above()
    if not top:
        hb = P.PciHostBridge(h)
        bus = P.PciBus(hb.bus, above, v.int('bus', 1, 255))
        v.put(dev, 'bus', bus)
    dev.enable_cnt = n = v.int('enabled', 0, 3)
    again = bool(n > 0)
    dev.is_busmaster = bm = v.choice('master', [False, True]) if again else False
    if again:
        # precondition: what is known of the function is how it is
        v.assume(v.eq(h.was(4) & 3, 3))
        v.assume(v.eq(h.was(4) & 4, 4 if bm else 0))
    v.run(dev.enable_device() if op == 'device' else dev.enable_bridge())
    v.cover('again' if again else 'first')
    f = [(4, 3, 3)]
    if op == 'bridge':
        f = [(4, 7, 7)]
        v.check('known as bus master', dev.is_busmaster is True)
    h.changed('command', f)
    v.check('known as enabled', dev.is_enabled())
    if op == 'device':
        v.check('counted', v.eq(dev.enable_cnt, n + 1))
    if not top and (op == 'bridge' or not again):
        v.check('everything above is enabled', above.enabled >= 1)


@contract('P27', covers=['last', 'others'])
def disable(v):
    """a function stops being bus master when the last user is gone"""
    dev, h = function(v)
    n = v.int('enabled', 1, 4)
    dev.enable_cnt = n
    dev.is_busmaster = True
    v.run(dev.disable_device())
    v.check('counted', v.eq(dev.enable_cnt, n - 1))
    if bool(v.eq(n, 1)):
        v.cover('last')
        h.changed('command', [(4, 4, 0)])
    else:
        v.cover('others')
        h.changed('command')


# ------------------------------------------------------------------ payload size

@contract('P27', cases=['none', 'root port', 'integrated', 'below root port', 'below switch', 'below other', 'top'], covers=['m'])
def payload_size(v, kind):
    """after setting up, a function uses the payload size of the bridge above unless it supports less, never more than it or
    the bridge supports; below a root port that is lowered instead when the function supports less"""
    P = v.mod('core.pci')
    dev, h = function(v, NO_CAP if kind == 'none' else ('EXP',))
    up, hu = function(v, NO_CAP if kind == 'below other' else ('EXP',), 'up.')
    hb = P.PciHostBridge(h)
    dev.pcie_mpss = s = v.int('supported', 0, 5)
    up.pcie_mpss = us = v.int('supported above', 0, 5)
    ty = {'root port': 4, 'integrated': 9}.get(kind)
    if ty is None:
        ty = v.choice('type', [0, 1, 5, 6, 7])
    dev.pcie_capabilities_reg = v.bits('low', 4) | ty << 4 | v.bits('high', 8) << 8
    up.pcie_capabilities_reg = (4 if kind == 'below root port' else v.choice('type above', [5, 6, 7, 8])) << 4 | 2
    mine = h.was(EXP + 8, 2) >> 5 & 7
    theirs = hu.was(EXP + 8, 2) >> 5 & 7
    v.assume(theirs <= us)                   # precondition: the bridge was set up before
    v.cover('m')
    if kind in ('root port', 'top'):
        v.put(dev, 'bus', hb.bus)
        hb.max_payload_size = v.int('of host', 0, 5)
        v.assume(hb.max_payload_size <= s)
        v.run(dev.configure_mps())
        h.changed('size', [(EXP + 8, 7 << 5, hb.max_payload_size << 5)] if kind == 'root port' else [])
        return
    v.put(dev, 'bus', P.PciBus(hb.bus, up, v.int('bus', 1, 255)))
    v.run(dev.configure_mps())
    if kind in ('none', 'below other'):
        h.changed('size')
        hu.changed('size above')
        return
    if kind == 'integrated':
        h.changed('size', [(EXP + 8, 7 << 5, s << 5)])
        hu.changed('size above')
        return
    low = kind == 'below root port'
    differ = bool(v.Not(v.eq(mine, theirs)))
    if not differ:
        h.changed('size')
        hu.changed('size above')
        return
    new = v.ite(theirs <= s, theirs, s)
    h.changed('size', [(EXP + 8, 7 << 5, new << 5)])
    hu.changed('size above', [(EXP + 8, 7 << 5, new << 5)] if low else [])


# ------------------------------------------------------------------ discovery

def word(v, x, n):
    return v.mk_bytes([x >> 8 * i & 0xff for i in range(n)], mutable=True)


@contract('P27', cases=[(n, m) for n in (0, 1, 3) for m in (0, 1, 3)], covers=['m'], fuzz=300,
          bounded='up to three capabilities in either list, with any IDs and offsets')
def walk(v, case):
    """both lists are followed to their ends: every capability is found, once, at its offset"""
    n, m = case
    P = v.mod('core.pci')
    h = Regs(v)
    dev = P.PciDevice(P.PciHostBridge(h).bus)
    dev.pcie_id = mk_id(v, v.mod('core.utils'), 'id')
    std = [(v.bits('id%d' % k, 8), v.int('at%d' % k, 16, 63) << 2) for k in range(n)]
    ext = [(v.bits('xid%d' % k, 16), 0x100 if k == 0 else v.int('xat%d' % k, 65, 1023) << 2, v.bits('ver%d' % k, 4)) for k in range(m)]
    for i, d, _ in ext:
        v.assume(v.And(v.Not(v.eq(i, 0xffff)), i > 0))
    low = [v.bits('low%d' % k, 2) for k in range(n + 1)]
    xlow = [v.bits('xlow%d' % k, 2) for k in range(m + 1)]
    seen = []

    async def read(dev_, addr, length, *a, **k):
        v.check('of the function', dev_ == dev.pcie_id)
        i = len(seen)
        seen.append(addr)
        if i == 0:
            v.check('starts at the capabilities pointer', v.And(v.eq(addr, 0x34), v.eq(length, 1)))
            return word(v, low[0] | (std[0][1] if n else 0), 1)
        if i <= n:
            v.check('follows the list', v.eq(addr, std[i - 1][1]))
            nxt = std[i][1] if i < n else 0
            return word(v, std[i - 1][0] | (nxt | low[i]) << 8, 2 if length == 2 else 4)
        j = i - n - 1
        if j < m:
            v.check('follows the extended list', v.eq(addr, ext[j][1]))
            nxt = ext[j + 1][1] if j + 1 < m else 0
            return word(v, ext[j][0] | ext[j][2] << 16 | (nxt | xlow[j]) << 20, 4)
        if m == 0 and j == 0:
            v.check('extended list starts at 0x100', v.eq(addr, 0x100))
            return word(v, 0 if v.choice('absent', [True, False]) else 0xffffffff, 4)
        v.check('the lists end', False)
        v.assume(False)
    v.put(h, 'config_read', read)
    v.run(dev.walk_capabilities())
    v.cover('m')
    v.check('as many as there are', v.And(len(dev.capabilities) == n, len(dev.ext_capabilities) == m))
    for k in range(n):
        v.check('capability', v.And(v.eq(dev.capabilities[k][0], std[k][0]), v.eq(dev.capabilities[k][1], std[k][1])))
    for k in range(m):
        v.check('extended capability', v.And(v.eq(dev.ext_capabilities[k][0], ext[k][0]),
                                             v.eq(dev.ext_capabilities[k][1], ext[k][1])))


@contract('P27', covers=['found', 'none'], bounded='lists of three capabilities')
def by_id(v):
    """looking up a capability gives the first offset with that ID in the list that ID belongs to"""
    C = v.mod('core.caps')
    dev, h = function(v)
    dev.capabilities = [(v.int('id%d' % k, 1, 0x14), v.int('at%d' % k, 16, 63) << 2) for k in range(3)]
    dev.ext_capabilities = [(v.int('xid%d' % k, 1, 0x14), v.int('xat%d' % k, 64, 1023) << 2) for k in range(3)]
    ext = v.choice('ext', [False, True])
    want = v.choice('want', [C.PciExtCapId.AER, C.PciExtCapId.DSN] if ext else [C.PciCapId.EXP, C.PciCapId.MSI])
    r = dev.get_capability_offset(want)
    for i, o in (dev.ext_capabilities if ext else dev.capabilities):
        if bool(v.eq(i, int(want))):
            v.cover('found')
            v.check('its offset', r is not None and v.eq(r, o))
            return
    v.cover('none')
    v.check('not there', r is None)


@contract('P27', cases=[0, 1, 2], covers=['express', 'plain'])
def setup(v, hdr):
    """identification registers are read from where they are, BARs and capabilities looked for before they are used, and
    everything configured"""
    P, C = v.mod('core.pci'), v.mod('core.caps')
    dev, h = function(v, ())
    ty = h.was(0x0e)
    v.assume(v.eq(ty & 0x7f, hdr))
    calls = []

    async def bars(n, rom, *a):
        calls.append(('bars', n, rom))

    async def walk_(*a):
        calls.append('walk')
        if v.choice('express', [True, False]):
            v.cover('express')
            dev.capabilities.append((C.PciCapId.EXP, EXP))
        else:
            v.cover('plain')

    async def conf(*a):
        calls.append('configure')
        if dev.capabilities:
            v.check('capability register known', v.eq(dev.pcie_capabilities_reg, h.was(EXP + 2, 2)))
            v.check('device capabilities known', v.eq(dev.pcie_devcap_reg, h.was(EXP + 4, 4)))
            v.check('supported payload size known', v.eq(dev.pcie_mpss, h.was(EXP + 4) & 7))

    async def caps(*a):
        calls.append('init')
    for n, f in (('read_bars', bars), ('walk_capabilities', walk_), ('configure_device', conf), ('init_capabilities', caps)):
        v.put(dev, n, f)
    v.run(dev.setup())
    v.check('header type', v.eq(dev.header_type, hdr))
    v.check('multi-function', bool(v.eq(ty >> 7, 1)) is bool(dev.multifunction))
    v.check('class code', v.eq(dev.class_code, h.was(0x09, 3)))
    v.check('revision', v.eq(dev.revision_id, h.was(0x08)))
    if hdr == 0:
        v.check('subsystem vendor', v.eq(dev.subsystem_vendor_id, h.was(0x2c, 2)))
        v.check('subsystem', v.eq(dev.subsystem_id, h.was(0x2e, 2)))
    h.changed('nothing is written')
    want = {0: [('bars', 6, 0x30)], 1: [('bars', 2, 0x38)], 2: []}[hdr]
    v.check('BARs of the header are read', [c for c in calls if c[0] == 'bars'] == want)
    rest = [c for c in calls if c[0] != 'bars']
    v.check('configured with the capabilities known', rest == ['walk', 'configure', 'init'])


@contract('P27', cases=['configure', 'init'], covers=['m'])
def parts(v, which):
    """every part of the configuration is done, once"""
    dev, h = function(v)
    calls = []

    def note(n):
        async def f(*a):
            calls.append(n)
        return f
    names = ('configure_mps', 'configure_extended_tags', 'configure_serr') if which == 'configure' else ('msi_init', 'msix_init')
    for n in names:
        v.put(dev, n, note(n))
    v.run(dev.configure_device() if which == 'configure' else dev.init_capabilities())
    v.cover('m')
    v.check('each once', sorted(calls) == sorted(names))


@contract('P27', covers=['here', 'below', 'none'], bounded='buses with two functions and two buses below')
def find(v):
    """a function is found by its ID, wherever it is (contract of find_device for the buses below)"""
    P, U = v.mod('core.pci'), v.mod('core.utils')
    h = Regs(v)
    hb = P.PciHostBridge(h)
    bus = hb.bus
    want = mk_id(v, U, 'want')
    bus.devices = []
    for k in range(2):
        d = P.PciDevice(bus)
        d.pcie_id = mk_id(v, U, 'd%d' % k)
        bus.devices.append(d)
    hits = [v.choice('below%d' % k, [None, 'it']) for k in range(2)]

    class Below:
        def __init__(self, r):
            self.r = r

        def find_device(self, pid):
            v.check('asked for the same ID', pid is want)
            return self.r
    bus.children = [Below(x) for x in hits]
    r = hb.find_device(want)
    same = [bool(v.And(v.eq(d.bus_num, want.bus), v.eq(d.device_num, want.device), v.eq(d.function_num, want.function)))
            for d in bus.devices]
    if any(same):
        v.cover('here')
        v.check('the function of that ID', r is bus.devices[same.index(True)])
    elif any(hits):
        v.cover('below')
        v.check('found below', r == 'it')
    else:
        v.cover('none')
        v.check('not there', r is None)

"""Capability lists (P12).  The state before each operation is an arbitrary well-formed list (arbitrary offsets and
lengths, built through the public registration interface); one registration, move or removal is performed and the
invariant re-established, so it holds after every sequence of operations.  The number of capabilities already present
is enumerated (stated bound), everything else is arbitrary."""
from vc.reg import contract, Thorough

LIM = {'cap': (0x10, 0x40), 'ext': (0x40, 0x400)}


def mkcap(v, kind, name, ident, length):
    base = v.mod('core.caps').PciCap if kind == 'cap' else v.mod('core.caps').PciExtCap

    class Cap(base):
        def __init__(self):
            super().__init__()
            self.cap_id = ident
            self.cap_ver = 1
            self.length = length
            self.log = []

        async def _read_register(self, reg):
            self.log.append(('r', reg))
            return ident << 16

        async def _write_register(self, reg, data, mask):
            self.log.append(('w', reg, data, mask))

    c = Cap()
    c.tname = name
    return c


class Space:
    """function whose capability list holds n capabilities at arbitrary disjoint positions"""
    def __init__(self, v, kind, n, maxlen=None):
        self.v, self.kind = v, kind
        self.lo, self.hi = LIM[kind]
        self.f = v.mod('core.function').Function()
        if kind == 'cap':
            for c in (self.f.pm_cap, self.f.pcie_cap):
                self.f.deregister_capability(c)
            v.check('empty list: null pointer', v.eq(self.f.capabilities_ptr, 0))
        self.lst = self.f.capabilities if kind == 'cap' else self.f.ext_capabilities
        self.caps = []
        end = self.lo
        for k in range(n):
            L = v.int('len%d' % k, 1, maxlen or self.hi - self.lo)
            o = v.int('off%d' % k, self.lo, self.hi - 1)
            v.assume(v.And(o >= end, o + L <= self.hi))
            end = o + L
            c = mkcap(v, kind, 'c%d' % k, 0x20 + k, L)
            self.reg(c, o)
            self.caps.append(c)
        self.end = end

    def reg(self, c, off=None):
        if self.kind == 'cap':
            self.f.register_capability(c, off)
        else:
            self.f.register_extended_capability(c, off)

    def dereg(self, c):
        if self.kind == 'cap':
            self.f.deregister_capability(c)
        else:
            self.f.deregister_extended_capability(c)

    def members(self, caps, what=''):
        got = list(self.lst.list)
        self.v.check('every registered capability is in the list exactly once',
                     len(got) == len(caps) and all(any(x is c for x in got) for c in caps), what)

    def disjoint(self, caps):
        v = self.v
        for c in caps:
            v.check('capability starts inside the region', c.offset >= self.lo)
        for i, a in enumerate(caps):
            for b in caps[i + 1:]:
                v.check('capabilities do not overlap',
                        v.Or(a.offset + a.length <= b.offset, b.offset + b.length <= a.offset))

    def walk(self, caps):
        """follow the list with configuration reads only"""
        v = self.v
        if self.kind == 'cap':
            ptr = v.run(self.f.read_config_register(13))
            nxt = lambda val: val >> 8 & 0xff
            ident = lambda val: val & 0xff
        else:
            ptr = caps[0].offset if caps else 0
            for c in caps[1:]:
                ptr = v.min(ptr, c.offset)
            ptr = ptr * 4
            nxt = lambda val: val >> 20
            ident = lambda val: val & 0xffff
        seen = []
        for k in range(len(caps)):
            v.check('walk continues until every capability was seen', v.Not(v.eq(ptr, 0)))
            v.check('pointers are DW aligned', v.eq(ptr & 3, 0))
            val = v.run(self.f.read_config_register(ptr >> 2))
            hit = None
            for c in caps:
                if v.truth(v.eq(c.offset * 4, ptr)):
                    hit = c
            v.check('pointer is the offset of a registered capability', hit is not None)
            if hit is None:
                return
            v.check('each capability is visited once', all(hit is not s for s in seen))
            v.check('identifier is read at the offset of the capability', v.eq(ident(val), hit.cap_id))
            seen.append(hit)
            ptr = nxt(val)
        v.check('walk terminates', v.eq(ptr, 0))

    def fits(self, caps):
        for c in caps:
            self.v.check('capability ends inside the region', c.offset + c.length <= self.hi)


def room(v, s, others, L, name='room'):
    """an arbitrary place with room for L registers, if one is assumed to exist"""
    p = v.int(name, s.lo, s.hi - 1)
    v.assume(p + L <= s.hi)
    for c in others:
        v.assume(v.Or(c.offset + c.length <= p, p + L <= c.offset))
    return p


CAS = [(k, n) for k in ('cap', 'ext') for n in (0, 1, 2)] + [Thorough(('cap', 3)), Thorough(('ext', 3))]
CAS1 = [c for c in CAS if (c.value if isinstance(c, Thorough) else c)[1]]
B = 'at most 3 capabilities already registered (2 in the quick tier); offsets, lengths and identifiers arbitrary'


@contract('P12', cases=CAS + [Thorough(('cap', 4))], covers=['m'], bounded=B)
def register_auto(v, case):
    """requires room for the new capability somewhere.  ensures it is placed inside the region without moving or
    overlapping any other, and the walk visits all"""
    kind, n = case
    s = Space(v, kind, n)
    L = v.int('newlen', 1, s.hi - s.lo)
    room(v, s, s.caps, L)
    c = mkcap(v, kind, 'new', 0x2f, L)
    v.cover('m')
    before = [x.offset for x in s.caps]
    s.reg(c)
    caps = s.caps + [c]
    s.members(caps)
    for x, o in zip(s.caps, before):
        v.check('other capabilities stay where they are', v.eq(x.offset, o))
    s.disjoint(caps)
    s.fits(caps)
    s.walk(caps)


@contract('P12', cases=CAS, covers=['m'], bounded=B)
def register_at(v, case):
    """requires a requested offset inside the region and enough room behind the last capability for those that have to
    make way.  ensures the new capability is at the requested offset, all capabilities are still there, disjoint and
    inside the region"""
    kind, n = case
    s = Space(v, kind, n)
    L = v.int('newlen', 1, s.hi - s.lo)
    o = v.int('newoff', s.lo, s.hi - 1)
    c = mkcap(v, kind, 'new', 0x2f, L)
    before = [x.offset for x in s.caps]
    clash = [v.truth(v.And(x.offset < o + L, o < x.offset + x.length)) for x in s.caps]
    need = v.max(o + L, s.end)
    for x, k in zip(s.caps, clash):
        if k:
            need = need + x.length
    v.assume(need <= s.hi)
    v.cover('m')
    s.reg(c, o)
    caps = s.caps + [c]
    v.check('capability is placed where requested', v.eq(c.offset, o))
    for x, b, k in zip(s.caps, before, clash):
        if not k:
            v.check('capabilities not in the way stay where they are', v.eq(x.offset, b))
    s.members(caps)
    s.disjoint(caps)
    s.fits(caps)
    s.walk(caps)


@contract('P12', cases=CAS1, covers=['m'], bounded=B)
def move(v, case):
    """a registered capability is registered again at another offset, by object or by identifier"""
    kind, n = case
    s = Space(v, kind, n)
    k = v.choice('which', list(range(n)))
    byid = v.choice('by', ['object', 'id'])
    c = s.caps[k]
    rest = [x for x in s.caps if x is not c]
    o = v.int('newoff', s.lo, s.hi - 1)
    need = v.max(o + c.length, s.end)
    for x in rest:
        need = v.ite(v.And(x.offset < o + c.length, o < x.offset + x.length), need + x.length, need)
    v.assume(need <= s.hi)
    v.cover('m')
    if byid == 'id':
        s.lst.register(c.cap_id, o)
        if kind == 'cap':
            return s.members(s.caps) or s.disjoint(s.caps) or s.fits(s.caps)
    else:
        s.reg(c, o)
    v.check('capability is placed where requested', v.eq(c.offset, o))
    s.members(s.caps)
    s.disjoint(s.caps)
    s.fits(s.caps)
    s.walk(s.caps)


@contract('P12', cases=CAS1, covers=['m'], bounded=B)
def deregister(v, case):
    """ensures the removed capability is gone, the others are unmoved and the walk visits exactly them; registering it
    again restores it"""
    kind, n = case
    s = Space(v, kind, n)
    k = v.choice('which', list(range(n)))
    c = s.caps[k]
    rest = [x for x in s.caps if x is not c]
    before = [x.offset for x in rest]
    v.cover('m')
    s.dereg(c)
    s.members(rest)
    for x, b in zip(rest, before):
        v.check('other capabilities stay where they are', v.eq(x.offset, b))
    s.walk(rest)
    r = v.int('reg', s.lo, s.hi - 1)
    inside = v.Or(*[v.And(x.offset <= r, r < x.offset + x.length) for x in rest]) if rest else False
    val = v.run(s.f.read_config_register(r))
    v.check('registers of no capability read zero', v.Or(inside, v.eq(val, 0)))
    v.check('removed capability is not accessed', not c.log)
    s.reg(c)
    s.members(s.caps)
    s.disjoint(s.caps)
    s.walk(s.caps)


@contract('P12', cases=CAS1 + [Thorough(('cap', 4))], covers=['hit', 'miss'], bounded=B)
def access(v, case):
    """ensures a configuration access to any register reaches exactly the capability that owns it, at the register's
    index within it, with data and byte enables unchanged"""
    kind, n = case
    s = Space(v, kind, n)
    r = v.int('reg', s.lo, s.hi - 1)
    data, be = v.bits('data', 32), v.bits('be', 4)
    owner = None
    for c in s.caps:
        if v.truth(v.And(c.offset <= r, r < c.offset + c.length)):
            owner = c
    v.cover('hit' if owner is not None else 'miss')
    v.run(s.f.write_config_register(r, data, be))
    for c in s.caps:
        w = [x for x in c.log if x[0] == 'w']
        if c is owner:
            v.check('write reaches the owner once', len(w) == 1)
            v.check('write carries register, data and byte enables',
                    v.And(v.eq(w[0][1], r - c.offset), v.eq(w[0][2], data), v.eq(w[0][3], be)))
        else:
            v.check('no other capability is written', not w)
        c.log.clear()
    val = v.run(s.f.read_config_register(r))
    for c in s.caps:
        x = [x for x in c.log if x[0] == 'r']
        if c is not owner:
            v.check('no other capability is read', not x)
    if owner is not None:
        first = v.eq(owner.offset, r)
        v.check('read returns the register of the owner', v.Or(first, v.eq(val, owner.cap_id << 16)))
        for x in owner.log:
            v.check('owner is read at the register index', v.eq(x[1], r - owner.offset))
    else:
        v.check('registers of no capability read zero', v.eq(val, 0))


MODELS = [('xilinx.us.us_model', 'UltraScalePcieFunction'), ('xilinx.us.usp_model', 'UltraScalePlusPcieFunction'),
          ('intel.s10.s10_model', 'S10PcieFunction'), ('intel.ptile.ptile_model', 'PTilePcieFunction'),
          ('core.endpoint', 'Endpoint'), ('core.endpoint', 'MemoryEndpoint'), ('core.bridge', 'Bridge'),
          ('core.switch', 'SwitchUpstreamPort'), ('core.switch', 'SwitchDownstreamPort'),
          ('core.bridge', 'HostBridge'), ('core.bridge', 'RootPort')]


@contract('P12', cases=MODELS, covers=['m'], fuzz=0)
def models(v, case):
    """ensures that every capability object of each function model is reachable with configuration reads at its
    offset, and that the walk of both lists terminates"""
    mod, name = case
    cls = getattr(v.mod(mod), name)
    f = cls()
    C = v.mod('core.caps')
    owned = [x for x in vars(f).values() if isinstance(x, C.PciCap)]
    v.cover('m')
    seen = []
    for kind, ptr, base in (('cap', v.run(f.read_config_register(13)), C.PciCap), ('ext', 0x100, C.PciExtCap)):
        for _ in range(64):
            if ptr == 0:
                break
            val = v.run(f.read_config_register(ptr >> 2))
            i = val & (0xff if kind == 'cap' else 0xffff)
            if kind == 'ext' and val == 0:
                break
            hit = [x for x in owned if x.offset is not None and x.offset * 4 == ptr and isinstance(x, C.PciExtCap) ==
                   (kind == 'ext')]
            v.check('walk meets a capability at its offset', len(hit) == 1, hex(ptr))
            v.check('identifier', v.eq(i, int(hit[0].cap_id)))
            seen.append(hit[0])
            ptr = val >> 8 & 0xff if kind == 'cap' else val >> 20
        else:
            v.check('walk terminates', False)
    # a capability object that was not given an offset is not registered (optional)
    for x in owned:
        v.check('every registered capability is visited exactly once',
                sum(1 for y in seen if y is x) == (0 if x.offset is None else 1), type(x).__name__)
    v.check('capabilities were found', len(seen) >= 2)
    for i, a in enumerate(seen):
        lo, hi = LIM['ext' if isinstance(a, C.PciExtCap) else 'cap']
        v.check('inside the region', lo <= a.offset and a.offset + a.length <= hi)
        for b in seen[i + 1:]:
            if isinstance(a, C.PciExtCap) == isinstance(b, C.PciExtCap):
                v.check('disjoint', a.offset + a.length <= b.offset or b.offset + b.length <= a.offset)

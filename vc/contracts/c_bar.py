"""BAR matching (P08) and BAR registers (P09)."""
from vc.reg import contract, Thorough

M32 = 0xffffffff


def pow2(v, name, lo, hi):
    """an arbitrary power of two 2**lo .. 2**hi"""
    s = v.int(name, 1 << lo, 1 << hi)
    v.assume(s & (s - 1) == 0)
    return s


def cfg_write(v, f, reg, data, mask=0xf):
    v.run(f.write_config_register(reg, data, mask))


def cfg_read(v, f, reg):
    return v.run(f.read_config_register(reg))


def setup(v, f, kinds):
    """configure and program BARs; -> list of (index, kind, base, size)"""
    out = []
    i = 0
    for k in kinds:
        if k == 'none':
            i += 1
            continue
        n = str(i)
        if k == 'io':
            s = pow2(v, 'size' + n, 2, 31)
            f.configure_bar(i, s, io=True)
        elif k == 'm32':
            s = pow2(v, 'size' + n, 4, 31)
            f.configure_bar(i, s, False, v.choice('pf' + n, [False, True]) if i == 0 else i & 1 == 1)
        else:
            s = pow2(v, 'size' + n, 4, 63)
            f.configure_bar(i, s, True, i & 2 == 0)
        if k == 'm64':
            w = v.bits('val' + n, 64)
            cfg_write(v, f, 4 + i, w & M32)
            cfg_write(v, f, 5 + i, w >> 32)
        else:
            w = v.bits('val' + n, 32)
            cfg_write(v, f, 4 + i, w)
        out.append((i, k, w & ~(s - 1), s))
        i += 2 if k == 'm64' else 1
    return out


def layouts(n):
    if n == 0:
        return [[]]
    out = []
    for k in ('none', 'io', 'm32'):
        out += [[k] + r for r in layouts(n - 1)]
    if n >= 2:
        out += [['m64'] + r for r in layouts(n - 2)]
    return out


HEADS = ['+'.join(h) for h in layouts(2)]


def window(addr, b, s):
    """b <= addr < b+s for a power of two s and a multiple b of s (lemma window_lemma)"""
    return addr & ~(s - 1) == b


@contract('P08', covers=['m'])
def window_lemma(v):
    """lemma: for a power of two s and b = w rounded down to a multiple of s,
    addr & ~(s-1) == b  <=>  b <= addr < b+s   (and then addr - b == addr & (s-1))"""
    s = 1 << v.choice('k', list(range(2, 64)))
    addr, w = v.bits('addr', 64), v.bits('w', 64)
    b = w & ~(s - 1)
    v.cover('m')
    v.check('equivalent', v.eq(v.truth(window(addr, b, s)), v.And(addr >= b, addr < b + s)))
    v.check('offset', v.Implies(window(addr, b, s), v.eq(addr - b, addr & (s - 1))))


def spec_match(v, f, bars, addr, io):
    r = f.match_bar(addr, io)
    ok = [(i, k, b, s) for i, k, b, s in bars if (k == 'io') == io]
    inside = {i: window(addr, b, s) for i, k, b, s in ok}
    if r is None:
        v.cover('miss')
        v.check('not claimed only when in no window', v.Not(v.Or(*inside.values())) if inside else True)
        return
    v.cover('hit')
    idx, off = r
    v.check('claimed by a BAR of this kind', any(idx == i for i, _, _, _ in ok))
    for i, k, b, s in ok:
        if i == idx:
            v.check('claimed only inside the window', inside[i])
            v.check('offset', v.eq(off, addr & (s - 1)))
    return r


@contract('P08', cases=HEADS, covers=['miss'], wall=400)
def match_bar(v, head):
    """all arrangements of 6 BARs starting with `head` whose other slots hold at most two more BARs (each BAR is matched
    on its own, so a third neighbour adds nothing; the thorough tier explores every arrangement)"""
    f = v.mod('core.endpoint').Endpoint()
    hd = head.split('+')
    used = sum(2 if k == 'm64' else 1 for k in hd)
    opts = [t for t in layouts(6 - used) if v.opts_thorough() or sum(k != 'none' for k in t) <= 1]
    t = v.choice('tail', opts)
    io = v.choice('io', [False, True])
    bars = setup(v, f, hd + t)
    addr = v.bits('addr', 32 if io else 64)
    spec_match(v, f, bars, addr, io)


@contract('P08', cases=['m64+m64+m64', 'm32+m64+m32+m64', 'io+m64+m64+m32', 'm32+m32+m32+m32+m32+m32',
                        'io+io+io+io+io+io', 'none+m64+none+m64', 'm64+io+none+m32+m32', 'm32+none+m64+io+m32'],
          covers=['miss', 'hit'], wall=400)
def match_bar_full(v, lay):
    """full arrangements, all six slots in use"""
    f = v.mod('core.endpoint').Endpoint()
    bars = setup(v, f, lay.split('+'))
    io = v.choice('io', [False, True])
    addr = v.bits('addr', 32 if io else 64)
    spec_match(v, f, bars, addr, io)


@contract('P08', cases=['none', 'io', 'm32', 'm64'], covers=['hit', 'miss'])
def match_io_bar(v, other):
    """match_io_bar is match_bar for IO requests"""
    f = v.mod('core.endpoint').Endpoint()
    bars = setup(v, f, [other, 'io'])
    addr = v.bits('addr', 32)
    r = f.match_io_bar(addr)
    ins = [(i, window(addr, b, s), s - 1) for i, k, b, s in bars if k == 'io']
    if r is None:
        v.cover('miss')
        v.check('miss', v.Not(v.Or(*[x for _, x, _ in ins])))
    else:
        v.cover('hit')
        v.check('claimed by an IO BAR', any(i == r[0] for i, _, _ in ins))
        for i, x, b in ins:
            if i == r[0]:
                v.check('inside', x)
                v.check('offset', v.eq(r[1], addr & b))


@contract('P08', cases=['io', 'm32', 'm64', 'io+m32', 'm64+m32', 'm32+m64'], covers=['hit', 'miss'])
def match_tlp_bar(v, lay):
    """an IO or memory request is matched by the function iff some BAR of its kind claims its address"""
    T = v.mod('core.tlp')
    f = v.mod('core.endpoint').Endpoint()
    bars = setup(v, f, lay.split('+'))
    t = T.Tlp()
    name = v.choice('type', ['IO_READ', 'IO_WRITE', 'MEM_READ', 'MEM_READ_64', 'MEM_WRITE', 'MEM_WRITE_64'])
    t.fmt_type = T.TlpType[name]
    io = name.startswith('IO')
    t.address = v.bits('dw', 62 if name.endswith('64') else 30) << 2
    t.length = 1
    r = v.truth(f.match_tlp(t))
    ins = v.Or(False, *[window(t.address, b, s) for i, k, b, s in bars if (k == 'io') == io])
    if r:
        v.cover('hit')
    else:
        v.cover('miss')
    v.check('matched iff inside a window of its kind', v.eq(v.truth(r), v.truth(ins)))


@contract('P08', covers=['m'])
def match_unprogrammed(v):
    """no BAR configured: nothing matches, whatever was written to the registers"""
    f = v.mod('core.endpoint').Endpoint()
    for i in range(6):
        cfg_write(v, f, 4 + i, v.bits('w%d' % i, 32))
    r = f.match_bar(v.bits('addr', 64), v.choice('io', [False, True]))
    v.cover('m')
    v.check('no match', r is None)


# ------------------------------------------------------------------------------------------------ P09

BARKINDS = ['io', 'm32', 'm32p', 'm64', 'm64p']


def spec_size(v, size, least):
    """2**ceil(log2(size)), at least `least`"""
    s = v.int('S', least, 1 << 63)
    v.assume(s & (s - 1) == 0)
    v.assume(v.Or(v.And(s >= size, s < 2 * size), v.And(s == least, size <= least)))
    return s


def func(v, hdr):
    if hdr == 'bridge':
        return v.mod('core.bridge').Bridge()
    return v.mod('core.endpoint').Endpoint()


def slots(hdr):
    return 2 if hdr == 'bridge' else 6


BC = [(h, k, i) for h in ('endpoint', 'bridge') for k in BARKINDS for i in range(slots(h) - (1 if k[:3] == 'm64' else 0))
      if not (h == 'endpoint' and i in (1, 2) and k in ('m32p', 'm64p'))]


@contract('P09', cases=BC, covers=['sized'], wall=400)
def bar_sizing(v, case):
    """configure_bar(size): all-ones write reads back ~(S-1) with the type bits, S = size rounded up to a power of two;
    a masked write of a value reads back the enabled address bits of the value and the old ones elsewhere;
    all other registers are unchanged"""
    hdr, kind, idx = case
    f = func(v, hdr)
    n = slots(hdr)
    wide = kind.startswith('m64')
    size = v.int('size', 1, (1 << 63) if wide else (1 << 31))
    least = 4 if kind == 'io' else 16
    S = spec_size(v, size, least)
    typ = {'io': 1, 'm32': 0, 'm32p': 8, 'm64': 4, 'm64p': 12}[kind]
    f.configure_bar(idx, size, ext=wide, prefetch=kind.endswith('p'), io=kind == 'io')
    own = [idx, idx + 1] if wide else [idx]
    tb = 3 if kind == 'io' else 15
    # unprogrammed value
    v.check('type bits after configuration', cfg_read(v, f, 4 + idx) & tb == typ)
    for i in own:
        cfg_write(v, f, 4 + i, M32)
    r = cfg_read(v, f, 4 + idx)
    if wide:
        r = r | cfg_read(v, f, 5 + idx) << 32
    amask = ((1 << 64) if wide else (1 << 32)) - S
    v.check('sizing mask', r == amask | typ)
    v.cover('sized')
    for i in range(n):
        if i not in own:
            v.check('other BAR still reads 0', cfg_read(v, f, 4 + i) == 0)
    # masked write
    w = v.bits('w', 32)
    be = v.bits('be', 4)
    k = v.choice('which', own)
    cfg_write(v, f, 4 + k, w, be)
    new = cfg_read(v, f, 4 + k)
    old = r >> 32 if k != idx else r & M32
    am = amask >> 32 if k != idx else amask & M32
    for b in range(4):
        sh = 8 * b
        want = v.ite(v.truth(be >> b & 1), (w & am | (typ if k == idx else 0)) >> sh & 255, old >> sh & 255)
        v.check('byte %d: enabled address bits written, others kept' % b, new >> sh & 255 == want)
    if wide:
        o = own[1] if k == own[0] else own[0]
        v.check('other half kept', cfg_read(v, f, 4 + o) == (r >> 32 if o != idx else r & M32))


@contract('P09', cases=['endpoint', 'bridge'], covers=['m'])
def bar_write_frame(v, hdr):
    """a BAR write changes no other register of the header, whatever all the BARs hold; every implemented BAR reads back
    its own value"""
    f = func(v, hdr)
    n = slots(hdr)
    for i in range(n):
        f.configure_bar(i, pow2(v, 'S%d' % i, 4, 31), io=i == 1)
    vals = [v.bits('v%d' % i, 32) for i in range(n)]
    for i in range(n):
        cfg_write(v, f, 4 + i, vals[i])
    before = [cfg_read(v, f, r) for r in range(16)]
    k = v.choice('k', list(range(n)))
    cfg_write(v, f, 4 + k, v.bits('w', 32), v.bits('be', 4))
    after = [cfg_read(v, f, r) for r in range(16)]
    v.cover('m')
    for r in range(16):
        if r != 4 + k:
            v.check('register %d unchanged' % r, v.eq(before[r], after[r]))


@contract('P09', cases=['endpoint', 'bridge'], covers=['m'])
def rom_bar(v, hdr):
    """expansion ROM BAR: writable bits are the address bits of its size (2 KB granularity) and the enable bit"""
    f = func(v, hdr)
    S = pow2(v, 'S', 11, 31)
    reg = 14 if hdr == 'bridge' else 12
    f.expansion_rom_addr_mask = (1 << 32) - S
    cfg_write(v, f, reg, M32)
    r = cfg_read(v, f, reg)
    v.check('sizing', r == ((1 << 32) - S) | 1)
    cfg_write(v, f, reg, 0xfffffffe)
    v.check('sizing without enable', cfg_read(v, f, reg) == (1 << 32) - S)
    w, be = v.bits('w', 32), v.bits('be', 4)
    o = v.bits('o', 32)
    cfg_write(v, f, reg, o)
    old = cfg_read(v, f, reg)
    wm = ((1 << 32) - S) | 1
    v.check('value', old == o & wm)
    others = [cfg_read(v, f, i) for i in range(16) if i != reg]
    cfg_write(v, f, reg, w, be)
    new = cfg_read(v, f, reg)
    v.cover('m')
    for b in range(4):
        want = v.ite(v.truth(be >> b & 1), (w & wm) >> 8 * b & 255, old >> 8 * b & 255)
        v.check('byte %d' % b, new >> 8 * b & 255 == want)
    j = 0
    for i in range(16):
        if i != reg:
            v.check('register %d unchanged' % i, v.eq(others[j], cfg_read(v, f, i)))
            j += 1


@contract('P09', covers=['low', 'high'])
def bar_index(v):
    """an index without a register is rejected"""
    f = func(v, v.choice('hdr', ['endpoint', 'bridge']))
    n = len(f.bar)
    i = v.int('i', 0, 9)
    ext = v.choice('ext', [False, True])
    r, e = v.raises(f.configure_bar, i, 4096, ext)
    lim = n - 1 if ext else n
    if i < lim:
        v.cover('low')
        v.check('accepted', e is None)
    else:
        v.cover('high')
        v.check('rejected', e is not None)


@contract('P09', covers=['m'])
def memory_endpoint_regions(v):
    """add_*_region puts regions in consecutive BARs of the right kind"""
    f = v.mod('core.endpoint').MemoryEndpoint()
    kinds = v.choice('seq', [s for n in (2, 3, 4) for s in layouts_regions(n)])
    i = 0
    for j, k in enumerate(kinds):
        S = 1 << (12 + j)

        async def rd(a, n):
            return bytes(n)

        async def wr(a, d):
            pass
        if k == 'io':
            f.add_io_region(S, rd, wr)
        elif k == 'm32':
            f.add_mem_region(S, rd, wr)
        else:
            f.add_prefetchable_mem_region(S, rd, wr)
        wide = k == 'm64p'
        cfg_write(v, f, 4 + i, M32)
        if wide:
            cfg_write(v, f, 5 + i, M32)
        r = cfg_read(v, f, 4 + i)
        v.check('sizing of region', r == ((1 << 32) - S | {'io': 1, 'm32': 0, 'm64p': 12}[k]))
        if wide:
            v.check('upper half', cfg_read(v, f, 5 + i) == M32)
        i += 2 if wide else 1
    v.cover('m')
    for b in range(i, 6):
        cfg_write(v, f, 4 + b, M32)
        v.check('no other BAR implemented', cfg_read(v, f, 4 + b) == 0)


def layouts_regions(n):
    import itertools
    return [list(s) for s in itertools.product(['io', 'm32', 'm64p'], repeat=n)
            if sum(2 if k == 'm64p' else 1 for k in s) <= 6]

"""PcieId, byte_mask_update, align (P23)"""
from vc.reg import contract


@contract('P23', covers=['ok', 'bad'])
def pcie_id_construct(v):
    """requires three ints.  ensures: ValueError iff some part is out of range, else the parts are kept"""
    u = v.mod('core.utils')
    b, d, f = v.int('b', -300, 600), v.int('d', -40, 80), v.int('f', -10, 20)
    how = v.choice('how', ['args', 'tuple', 'kw'])
    if how == 'args':
        r, e = v.raises(u.PcieId, b, d, f)
    elif how == 'tuple':
        r, e = v.raises(u.PcieId, (b, d, f))
    else:
        r, e = v.raises(u.PcieId, bus=b, device=d, function=f)
    good = v.And(b >= 0, b <= 255, d >= 0, d <= 31, f >= 0, f <= 7)
    if good:
        v.cover('ok')
        v.check('accepted', e is None)
        v.check('parts kept', v.And(r.bus == b, r.device == d, r.function == f))
        v.check('tuple form', v.And(r[0] == b, r[1] == d, r[2] == f, len(r) == 3))
    else:
        v.cover('bad')
        v.check('rejected with ValueError', isinstance(e, ValueError))


@contract('P23', covers=['m'])
def pcie_id_int(v):
    """int(id) is bus[15:8] device[7:3] function[2:0]; from_int is its inverse, both ways, for all 16-bit values"""
    u = v.mod('core.utils')
    b, d, f = v.bits('b', 8), v.bits('d', 5), v.bits('f', 3)
    x = u.PcieId(b, d, f)
    i = x.__int__()
    v.cover('m')
    v.check('encoding', i == b * 256 + d * 8 + f)
    y = u.PcieId.from_int(i)
    v.check('inverse', v.And(y.bus == b, y.device == d, y.function == f))
    v.check('equal', v.truth(x == y))
    n = v.bits('n', 16)
    z = u.PcieId.from_int(n)
    v.check('decode', v.And(z.bus == n >> 8, z.device == (n >> 3) % 32, z.function == n % 8))
    v.check('int(from_int)', z.__int__() == n)


@contract('P23', covers=['ok', 'bad'], cases=['bus', 'device', 'function'])
def pcie_id_replace(v, part):
    """_replace keeps the other parts, sets the named one, and rejects out-of-range values"""
    u = v.mod('core.utils')
    b, d, f = v.bits('b', 8), v.bits('d', 5), v.bits('f', 3)
    n = v.int('n', -300, 600)
    lim = dict(bus=255, device=31, function=7)[part]
    r, e = v.raises(u.PcieId(b, d, f)._replace, **{part: n})
    if v.And(n >= 0, n <= lim):
        v.cover('ok')
        v.check('accepted', e is None)
        w = dict(bus=b, device=d, function=f)
        w[part] = n
        v.check('parts', v.And(r.bus == w['bus'], r.device == w['device'], r.function == w['function']))
        v.check('type', type(r) is u.PcieId)
    else:
        v.cover('bad')
        v.check('rejected', isinstance(e, ValueError))


@contract('P23', covers=['ok', 'bad'])
def id_setters(v):
    """changing one part of an enumerated device's ID leaves the others alone; out-of-range values are rejected"""
    o = v.mod('core.pci').PciDevice(None)
    b, d, f = v.bits('b', 8), v.bits('d', 5), v.bits('f', 3)
    o.pcie_id = (b, d, f)
    v.check('whole', v.And(o.bus_num == b, o.device_num == d, o.function_num == f))
    part = v.choice('part', ['bus', 'device', 'function'])
    n = v.int('n', -5, 300)
    r, e = v.raises(setattr, o, part + '_num', n)
    w = dict(bus=b, device=d, function=f)
    if v.And(n >= 0, n <= dict(bus=255, device=31, function=7)[part]):
        v.cover('ok')
        v.check('accepted', e is None)
        w[part] = n
    else:
        v.cover('bad')
        v.check('rejected', e is not None)
    p = o.pcie_id
    v.check('parts', v.And(p.bus == w['bus'], p.device == w['device'], p.function == w['function']))


@contract('P23', cases=[4, 8], covers=['m'])
def byte_mask_update(v, nb):
    """every bit: new value iff its byte enable and its bit mask are set, else old (no other bit changes)"""
    u = v.mod('core.utils')
    w = nb * 8
    old, new, bm = v.bits('old', w), v.bits('new', w), v.bits('bitmask', w)
    mask = v.bits('mask', nb)
    r = u.byte_mask_update(old, mask, new, bm)
    v.cover('m')
    v.check('range', v.And(r >= 0, r < 1 << w))
    for k in range(w):
        sel = v.And(v.truth(mask >> (k // 8) & 1), v.truth(bm >> k & 1))
        v.check('bit %d' % k, v.ite(sel, new >> k & 1, old >> k & 1) == r >> k & 1)


@contract('P23', covers=['m'])
def byte_mask_update_default(v):
    """without a bit mask whole enabled bytes are replaced"""
    u = v.mod('core.utils')
    old, new, mask = v.bits('old', 32), v.bits('new', 32), v.bits('mask', 4)
    r = u.byte_mask_update(old, mask, new)
    v.cover('m')
    for k in range(4):
        v.check('byte %d' % k, v.ite(v.truth(mask >> k & 1), new >> 8 * k & 0xff, old >> 8 * k & 0xff)
                == r >> 8 * k & 0xff)


@contract('P23', covers=['m'])
def align(v):
    """align(val, 2^k-1) is the smallest multiple of 2^k not below val"""
    u = v.mod('core.utils')
    k = v.choice('k', list(range(0, 64)))
    val = v.bits('val', 64)
    m = (1 << k) - 1
    r = u.align(val, m)
    v.cover('m')
    v.check('aligned', r & m == 0)
    v.check('not below', r >= val)
    v.check('closest', r - val <= m)

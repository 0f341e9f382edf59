"""MSI and MSI-X: vector allocation, delivery, interrupt messages, configuration of functions (P22)."""
from vc.reg import contract, Thorough
from vc.contracts.c_mem import root


class Table:
    """ghost for the region's vector table: what is added (numbers are symbolic)"""
    def __init__(self):
        self.added = []

    def __setitem__(self, k, x):
        self.added.append((k, x))


QUICK = sorted(set(range(1, 41)) | {63, 64, 65, 96, 100, 256, 2048})


@contract('P22', covers=['m'], cases=['small', 'large', Thorough('all')], wall=800)
def alloc(v, how):
    """from any allocation state (limit a multiple of 32): the new vectors get consecutive fresh numbers starting at a
    multiple of 32, all of them registered; the limit stays a multiple of 32 beyond them"""
    v.mod('cocotb').reset()
    R = v.mod('core.rc').RootComplex()
    m = R.msi_region
    lim = v.int('blocks', 0, 1 << 20) * 32
    v.put(m, 'msi_msg_limit', lim)
    tab = Table()
    v.put(m, 'msi_vectors', tab)
    num = v.choice('num', {'small': QUICK[:45], 'large': QUICK[45:], 'all': list(range(1, 2049))}[how])
    vecs = R.msi_alloc_vectors(num)
    v.cover('m')
    v.check('number of vectors', len(vecs) == num and len(set(map(id, vecs))) == num)
    base = vecs[0].data
    v.check('block alignment', v.eq(base & 31, 0))
    v.check('fresh numbers', base >= lim)
    v.check('consecutive numbers', v.And(*[v.eq(x.data, base + k) for k, x in enumerate(vecs)]))
    v.check('limit is beyond the block', m.msi_msg_limit >= base + num)
    v.check('limit stays aligned', v.eq(m.msi_msg_limit & 31, 0))
    v.check('every vector is registered under its number',
            len(tab.added) == num and all(a[1] is b for a, b in zip(tab.added, vecs)))
    v.check('registered numbers', v.And(*[v.eq(a[0], b.data) for a, b in zip(tab.added, vecs)]))
    a = m.get_absolute_address(0)
    v.check('message address is the region', v.And(*[v.eq(x.addr, a) for x in vecs]))
    v.check('vectors have their own events', len({id(x.event) for x in vecs}) == num
            and len({id(x.cb) for x in vecs}) == num)


@contract('P22', covers=['m'], cases=[(1, 1), (3, 2), (32, 32), (5, 40), (33, 1), (64, 3)])
def alloc_sequence(v, case):
    """two devices: no number twice; a message for any allocated number reaches exactly that vector, once"""
    sim = v.mod('cocotb').reset()
    R = v.mod('core.rc').RootComplex()
    ran = []

    def cb(x):
        async def f():
            ran.append(x)
        return f
    vecs = R.msi_alloc_vectors(case[0]) + R.msi_alloc_vectors(case[1])
    nums = [x.data for x in vecs]
    v.check('no number twice', len(set(nums)) == len(nums))
    for x in vecs:
        x.cb.append(cb(x))
    tgt = vecs[v.choice('vector', range(len(vecs)))]
    addr = tgt.addr

    async def deliver():
        await R.mem_address_space.write(addr, tgt.data.to_bytes(4, 'little'))
    sim.start(deliver())
    sim.run_ready()
    v.cover('m')
    v.check('exactly this vector is signalled', [x for x in vecs if x.event.is_set()] == [tgt])
    v.check('its handlers run once, no other', ran == [tgt])


@contract('P22', covers=['m'])
def deliver_unknown(v):
    """a message whose number was never allocated signals nothing"""
    sim = v.mod('cocotb').reset()
    R = v.mod('core.rc').RootComplex()
    vecs = R.msi_alloc_vectors(3) + R.msi_alloc_vectors(2)
    data = v.bytes('data', 4)
    n = v.byte(data, 0) | v.byte(data, 1) << 8 | v.byte(data, 2) << 16 | v.byte(data, 3) << 24
    v.assume(v.And(*[v.Not(v.eq(n, x.data)) for x in vecs]))

    async def go():
        try:
            await R.msi_region.write(0, data)
        except Exception:
            pass
    v.run(go())
    v.cover('m')
    v.check('nothing is signalled', not any(x.event.is_set() for x in vecs))


class Parent:
    """function that records its memory writes"""
    def __init__(self):
        self.log = []

    async def mem_write(self, addr, data, *a, **k):
        self.log.append((addr, data, a, k))


def le32(v, d):
    return v.byte(d, 0) | v.byte(d, 1) << 8 | v.byte(d, 2) << 16 | v.byte(d, 3) << 24


def tcattr(v):
    T = v.mod('core.tlp')
    return T.TlpTc(v.bits('tc', 3)), T.TlpAttr(v.bits('attr', 3))


@contract('P22', covers=['sent', 'disabled', 'range'])
def issue_msi(v):
    """exactly one DW write of the vector's message to the programmed address when enabled and the vector is one of the
    enabled ones; otherwise an error and no write"""
    c = v.mod('core.caps').MsiCapability()
    p = Parent()
    c.parent = p
    c.msi_enable = v.choice('enable', [False, True])
    mme = v.choice('mme', range(6))
    mmc = v.choice('mmc', range(6))
    c.msi_multiple_message_enable, c.msi_multiple_message_capable = mme, mmc
    ext, exte = v.choice('ext', [0, 1]), v.choice('ext enable', [False, True])
    c.msi_extended_message_data_capable, c.msi_extended_message_data_enable = ext, exte
    addr, data = v.bits('addr', 62) << 2, v.bits('data', 32)
    c.msi_message_address, c.msi_message_data = addr, data
    c.msi_mask_bits = 0
    n = v.int('n', -2, 40)
    tc, attr = tcattr(v)
    _, e = v.raises(v.run, c.issue_msi_interrupt(n, attr=attr, tc=tc))
    if not c.msi_enable:
        v.cover('disabled')
        v.check('nothing is sent while disabled', not p.log)
        v.check('refused while disabled', e is not None)
        return
    if not v.And(n >= 0, n < 1 << min(mme, mmc)):
        v.cover('range')
        v.check('nothing is sent for a vector that does not exist', not p.log)
        v.check('vector that does not exist is refused', e is not None)
        return
    v.cover('sent')
    v.check('accepted', e is None)
    v.check('exactly one write', len(p.log) == 1)
    a, d, pa, k = p.log[0]
    v.check('programmed address', v.eq(a, addr))
    v.check('one DW', v.eq(v.len(d), 4))
    base = data if ext and exte else data & 0xffff
    v.check('message of the vector', v.eq(le32(v, d), (base >> mme << mme) + n))
    v.check('attributes', v.And(v.eq(k.get('attr'), attr), v.eq(k.get('tc'), tc)))


@contract('P22', covers=['sent', 'disabled'])
def issue_msix(v):
    """exactly one DW write of the given message to the given address, only while enabled"""
    c = v.mod('core.caps').MsixCapability()
    p = Parent()
    c.parent = p
    c.msix_enable = v.choice('enable', [False, True])
    addr, data = v.bits('addr', 62) << 2, v.bits('data', 32)
    tc, attr = tcattr(v)
    _, e = v.raises(v.run, c.issue_msix_interrupt(addr, data, attr=attr, tc=tc))
    if not c.msix_enable:
        v.cover('disabled')
        v.check('nothing is sent while disabled', not p.log and e is not None)
        return
    v.cover('sent')
    v.check('exactly one write', e is None and len(p.log) == 1)
    a, d, pa, k = p.log[0]
    v.check('given address', v.eq(a, addr))
    v.check('one DW', v.eq(v.len(d), 4))
    v.check('given message', v.eq(le32(v, d), data))
    v.check('attributes', v.And(v.eq(k.get('attr'), attr), v.eq(k.get('tc'), tc)))


class Vec:
    def __init__(self, addr, data):
        self.addr, self.data = addr, data
        self.cb = []


def function_under(v, msi, msix):
    """a real function with MSI/MSI-X capabilities and the root complex' view of it; configuration accesses reach the
    function's registers directly (P13 and P19 are about the path)"""
    cc = v.mod('core.caps')
    v.mod('cocotb').reset()
    f = v.mod('core.endpoint').MemoryEndpoint()
    caps = {}
    if msi:
        caps['msi'] = cc.MsiCapability()
        f.register_capability(caps['msi'])
    if msix:
        caps['msix'] = cc.MsixCapability()
        f.register_capability(caps['msix'])
    R = v.mod('core.rc').RootComplex()

    async def config_read(dev, addr, length, *a, **k):
        out = []
        for i in range(addr, addr + length):
            w = await f.read_config_register(i >> 2)
            out.append(w >> 8 * (i & 3) & 0xff)
        return v.mk_bytes(out, mutable=True)

    async def config_write(dev, addr, data, *a, **k):
        n = v.len(data)
        i = 0
        while i < n:
            reg, lane = (addr + i) >> 2, (addr + i) & 3
            w, be = 0, 0
            while i < n and (addr + i) >> 2 == reg:
                w |= data[i] << 8 * ((addr + i) & 3)
                be |= 1 << ((addr + i) & 3)
                i += 1
            await f.write_config_register(reg, w, be)
    v.patch(R, 'config_read', config_read)
    v.patch(R, 'config_write', config_write)
    d = v.mod('core.pci').PciDevice(None, rc=R)
    v.run(d.walk_capabilities())
    return f, caps, R, d


@contract('P22', covers=['m'], cases=[(a, p) for a in (0, 1) for p in (0, 1)])
def configure_msi(v, case):
    """after configuration from any capability state, each enabled vector's message is the one of its own vector
    (vector allocation by its contract: block of 32 numbers at a multiple of 32), and MSI is enabled"""
    is64, pvm = case
    f, caps, R, d = function_under(v, True, False)
    c = caps['msi']
    c.msi_64bit_address_capable, c.msi_per_vector_mask_capable = is64, pvm
    c.msi_extended_message_data_capable = v.choice('ext', [0, 1])
    c.msi_multiple_message_capable = v.choice('mmc', range(6))
    c.msi_enable = v.choice('was enabled', [False, True])
    c.msi_multiple_message_enable = v.choice('mme', [0, 5])
    c.msi_message_address = v.bits('old addr', 64 if is64 else 32) & ~3
    c.msi_message_data = v.bits('old data', 16)
    addr = v.bits('addr', 62 if is64 else 30) << 2
    base = v.bits('block', 11) << 5
    asked = []

    def alloc_vectors(num):
        asked.append(num)
        return [Vec(addr, base + k) for k in range(num)]
    v.patch(R, 'msi_alloc_vectors', alloc_vectors)
    n = v.run(d.alloc_irq_vectors(1, v.choice('max', [1, 32])))
    v.cover('m')
    v.check('vectors were configured', n >= 1)
    v.check('MSI is enabled', v.truth(c.msi_enable))
    mme = c.msi_multiple_message_enable
    if v.symbolic:
        mme = v.fix(mme)
    v.check('as many messages as reported are enabled', 1 << mme >= n)
    v.check('no more messages than vectors and capability', 1 << mme <= min(len(d.msi_vectors),
                                                                           1 << c.msi_multiple_message_capable))
    p = Parent()
    c.parent = p
    k = v.choice('vector', range(32))
    v.assume(k < 1 << mme)
    v.run(c.issue_msi_interrupt(k))
    v.check('one write', len(p.log) == 1)
    v.check('address of the vector', v.eq(p.log[0][0], d.msi_vectors[k].addr))
    v.check('message of the vector', v.eq(le32(v, p.log[0][1]), d.msi_vectors[k].data))
    h = object()
    d.request_irq(k, h)
    v.check('handler is attached to the vector', [x.cb for x in d.msi_vectors] == [
        [h] if i == k else [] for i in range(len(d.msi_vectors))])


class Window:
    """ghost BAR window: 32-bit words by offset"""
    def __init__(self, v):
        self.v, self.mem, self.order = v, {}, []

    async def write_dword(self, addr, x, *a, **k):
        self.mem[addr] = x

    async def read_dword(self, addr, *a, **k):
        return self.mem.get(addr, 0)

    async def write(self, addr, data, *a, **k):
        d = self.v
        for i in range(0, d.len(data), 4):
            self.mem[addr + i] = d.byte(data, i) | d.byte(data, i + 1) << 8 | d.byte(data, i + 2) << 16 \
                | d.byte(data, i + 3) << 24

    async def read(self, addr, n, *a, **k):
        raise NotImplementedError


@contract('P22', covers=['m'], cases=[1, 2, 3, 8, 33, 64, Thorough(2048)], ok_exc=(NotImplementedError,), wall=800)
def configure_msix(v, size):
    """after configuration the table (at its BAR and offset) holds for each vector that vector's own address and
    message, unmasked, nothing else is written, and MSI-X is enabled"""
    f, caps, R, d = function_under(v, False, True)
    c = caps['msix']
    c.msix_table_size = size - 1
    bir = v.choice('bir', [0, 2, 5])
    off = v.choice('offset', [0, 8, 0x1000, 0xfffff8])
    c.msix_table_bar_indicator_register, c.msix_table_offset = bir, off
    c.msix_pba_bar_indicator_register, c.msix_pba_offset = v.choice('pba bir', [0, 1]), 0x8000
    c.msix_enable = v.choice('was enabled', [False, True])
    addr, base = v.bits('addr', 62) << 2, v.bits('block', 20) << 5

    def alloc_vectors(num):
        return [Vec(addr, base + k) for k in range(num)]
    v.patch(R, 'msi_alloc_vectors', alloc_vectors)
    d.bar_window = [Window(v) for k in range(6)]
    n = v.run(d.alloc_irq_vectors(1, v.choice('max', [1, 4096])))
    v.cover('m')
    v.check('vectors were configured', n >= 1 and n <= size)
    v.check('MSI-X is enabled', v.truth(c.msix_enable))
    v.check('a vector for every table entry', len(d.msi_vectors) >= size)
    m = d.bar_window[bir].mem
    v.check('exactly the table is written', set(m) == {off + 4 * i for i in range(4 * size)})
    v.check('nothing else is written', not any(w.mem for i, w in enumerate(d.bar_window) if i != bir))
    for k in range(size):
        e = [m.get(off + 16 * k + 4 * i, 0) for i in range(4)]
        v.check('table entry holds the address of its vector', v.eq(e[0] | e[1] << 32, d.msi_vectors[k].addr))
        v.check('table entry holds the message of its vector', v.eq(e[2], d.msi_vectors[k].data))
        v.check('table entry is unmasked', v.eq(e[3] & 1, 0))


@contract('P22', covers=['m'], cases=['msi+msix', 'msi', 'msix'])
def configure_once(v, have):
    """MSI and MSI-X are never enabled together, and an enabled one is not configured again; freeing disables"""
    f, caps, R, d = function_under(v, 'msi' in have.split('+'), 'msix' in have)
    d.bar_window = [Window(v) for k in range(6)]
    if 'msi' in caps:
        caps['msi'].msi_multiple_message_capable = v.choice('mmc', [0, 3, 5])
    mn, mx = v.choice('range', [(1, 32), (2, 4), (64, 64), (4, 2)])
    n = v.run(d.alloc_irq_vectors(mn, mx))
    on = [k for k, c in caps.items() if (c.msi_enable if k == 'msi' else c.msix_enable)]
    v.cover('m')
    v.check('never both', len(on) <= 1)
    v.check('enabled exactly when vectors are reported', bool(on) == (n > 0))
    v.check('the number of vectors is in the requested range', n <= 0 or mn <= n <= mx)
    if n > 0:
        old = [(x.addr, x.data) for x in d.msi_vectors]
        n2 = v.run(d.alloc_irq_vectors(mn, mx))
        on2 = [k for k, c in caps.items() if (c.msi_enable if k == 'msi' else c.msix_enable)]
        v.check('still the same one', on2 == on)
        v.check('vectors are kept', [(x.addr, x.data) for x in d.msi_vectors] == old)
        v.run(d.free_irq_vectors())
        v.check('freeing disables', not any((c.msi_enable if k == 'msi' else c.msix_enable)
                                            for k, c in caps.items()))

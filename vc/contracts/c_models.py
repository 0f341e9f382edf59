"""Hard IP models (P29): the real UltraScale, UltraScale+, Stratix 10 and P-Tile devices with two functions, between the link
and ghost user streams.  Packing into descriptors and framing is P24, P25 and P28; address decoding P08."""
from vc.reg import contract, Thorough
from vc.contracts.c_tlp import sym_tlp, has_data, mk_id, POSTED, FIELDS
from vc.contracts.c_usif import Bus
from vc.contracts.c_intel import Clk, FakeBus, signals, same_tlp
from vc.contracts._common import Fc, Sink, Snap, same_packet, check_cpl, id_eq

XIL = {'us': ('xilinx.us.us_model', 'UltraScalePcieDevice', 256, dict(cq=85, rc=75, rq=60, cc=33)),
       'usp': ('xilinx.us.usp_model', 'UltraScalePlusPcieDevice', 512, dict(cq=183, rc=161, rq=137, cc=81))}
INTEL = {'s10': ('intel.s10.s10_model', 'S10PcieDevice', 'S10PcieFrame'),
         'ptile': ('intel.ptile.ptile_model', 'PTilePcieDevice', 'PTilePcieFrame')}
MODELS = list(XIL) + list(INTEL)
MEM = ['MEM_READ', 'MEM_READ_64', 'MEM_WRITE', 'MEM_WRITE_64']
IO = ['IO_READ', 'IO_WRITE']
# BARs of the two functions: register index -> (is IO, 64 bit, size in bits)
BARS = [{0: (False, True, 24), 2: (False, False, 16), 5: (True, False, 8)},
        {0: (False, False, 20), 3: (False, True, 34), 5: (True, False, 4)}]
TICKS = 4


class UserClk(Clk):
    def __len__(self):
        return 1

    def setimmediatevalue(self, x):
        pass


class Out:
    """ghost user side stream: what the device hands over"""
    def __init__(self):
        self.sent = []

    async def send(self, x):
        self.sent.append(x)

    def send_nowait(self, x):
        self.sent.append(x)


class Model:
    def __init__(self, v, name, **kw):
        self.v, self.name = v, name
        self.C = v.mod('cocotb')
        self.sim = self.C.reset()
        self.clk = UserClk()
        self.T = v.mod('core.tlp')
        if name in XIL:
            mod, cls, width, tu = XIL[name]
            M, UT = v.mod(mod), v.mod('xilinx.us.tlp')
            v.patch(UT.Tlp_us, 'pack_us_cq', lambda t: t)
            v.patch(UT.Tlp_us, 'pack_us_rc', lambda t: t)
            v.patch(UT.Tlp_us, 'unpack_us_rq', staticmethod(lambda t, *a: t))
            v.patch(UT.Tlp_us, 'unpack_us_cc', staticmethod(lambda t, *a: t))
            self.UT = UT
            self.dev = d = getattr(M, cls)(user_clk=self.clk, pf_count=2, pcie_generation=3, pcie_link_width=8 if width == 256
                                           else 16, user_clk_frequency=250e6, alignment='dword',
                                           **{k + '_bus': Bus(v, width, w) for k, w in tu.items()}, **kw)
            self.Q = v.mod('cocotb.queue').Queue
            self.req, self.cpl, self.rq, self.cc = Out(), Out(), self.source(), self.source()
            v.put(d, 'cq_source', self.req)
            v.put(d, 'rc_source', self.cpl)
            v.put(d, 'rq_sink', self.rq)
            v.put(d, 'cc_sink', self.cc)
        else:
            mod, cls, frame = INTEL[name]
            M = v.mod(mod)
            self.Q = v.mod('cocotb.queue').Queue

            class Frame:
                """a frame by contract (P25): holds the packet"""
                def __init__(self, tlp):
                    self.tlp, self.bar_range, self.func_num, self.err, self.vf_num = tlp, 0, 0, 0, None

                def to_tlp(self):
                    return self.tlp
            self.Frame = Frame
            v.patch(getattr(M, frame), 'from_tlp', staticmethod(Frame))
            self.dev = d = getattr(M, cls)(coreclkout_hip=self.clk, pf_count=2, pcie_generation=3, pcie_link_width=8,
                                           pld_clk_frequency=250e6, rx_bus=FakeBus(v, signals(name, 1, 256)),
                                           tx_bus=FakeBus(v, signals(name, 1, 256)), **kw)
            self.req = self.cpl = Out()
            self.tx = self.source()
            v.put(d, 'rx_source', self.req)
            v.put(d, 'tx_sink', self.tx)
        self.up = Sink()
        v.put(d.upstream_port, 'send', self.up)
        bus = v.bits('bus', 8)
        self.ids = [f.pcie_id for f in d.functions]
        v.check('functions are numbered', len(d.functions) == 2 and [i.function for i in self.ids] == [0, 1])
        v.put(d, '_bus_num', bus)
        for f in d.functions:
            f.pcie_id = f.pcie_id._replace(bus=bus)
        self.bus = bus
        for f, bars in zip(d.functions, BARS):
            for b, (io, wide, n) in bars.items():
                m = (1 << 64) - (1 << n)
                f.bar[b] = 1 if io else 4 if wide else 0
                f.bar_mask[b] = m & 0xffffffff
                if wide:
                    f.bar_mask[b + 1] = m >> 32
        self.run()

    def source(self):
        q = self.Q()

        class S:
            async def recv(s):
                return await q.get()

            def put(s, x):
                q.put_nowait(x)
        return S()

    def run(self, n=TICKS):
        self.sim.run_ready()
        for _ in range(n):
            self.clk.tick()
            self.sim.run_ready()

    def receive(self, tlp, n=TICKS):
        t = self.sim.start(self.dev.upstream_port.rx_handler(tlp))
        self.run(n)
        self.v.check('reception ends', t.done())

    def decode(self, tlp, hit, bar):
        """address decoding by contract: function `hit` (or none) claims the address with BAR `bar`"""
        v = self.v

        def match(k):
            def f(addr, io=False):
                v.check('decoded address', v.eq(addr, tlp.address))
                v.check('decoded in the right space', bool(io) == (tlp.fmt_type in (self.T.TlpType.IO_READ, self.T.TlpType.IO_WRITE)))
                return (bar, 0) if k == hit else None
            return f
        for k, f in enumerate(self.dev.functions):
            v.put(f, 'match_bar', match(k))


def request_of(v, tname):
    t = sym_tlp(v, tname)
    t.ep = False
    if tname in IO or tname.startswith('CFG'):
        t.length, t.last_be = 1, 0
        t.tc, t.attr, t.at = v.mod('core.tlp').TlpTc(0), v.mod('core.tlp').TlpAttr(0), v.mod('core.tlp').TlpAt(0)
    if has_data(tname):
        t.length = 1 if tname in IO or tname.startswith('CFG') else 3
        t.data = v.bytes('payload', 4 * t.length, True)
    return t


def request_cases():
    r = []
    for m in MODELS:
        for t in MEM + IO:
            r.append((m, t, None, 0))
            for k in (0, 1):
                r += [(m, t, k, b) for b, x in BARS[k].items() if x[0] == (t in IO)]
    return r


@contract('P29', cases=request_cases(), covers=['received'], bounded='three sizes of BAR; payload of 3 DW, contents arbitrary')
def request(v, case):
    """requires: a memory or IO request arrives, function k (or none) claims its address.  ensures: it is handed to the user
    side exactly once, unchanged, naming function k, the BAR and (Xilinx) the BAR's size; if no function claims it, it is
    completed as unsupported iff non-posted; its credits are returned exactly once"""
    name, tname, hit, bar = case
    m = Model(v, name)
    t = request_of(v, tname)
    m.decode(t, hit, bar)
    s, fc = Snap(t), Fc(t)
    m.receive(t)
    v.cover('received')
    v.check('credits are returned exactly once', fc.n == 1)
    if hit is None:
        v.check('not handed to the user', not m.req.sent)
        if tname in POSTED:
            v.check('unclaimed posted request is dropped silently', not m.up.sent)
        else:
            v.check('unclaimed request is completed once', len(m.up.sent) == 1)
            check_cpl(v, m.up.sent[0], s, m.T.CplStatus.UR, m.ids[0]._replace(bus=m.bus))
        return
    v.check('no completion by the device', not m.up.sent)
    v.check('handed to the user exactly once', len(m.req.sent) == 1)
    f = m.req.sent[0]
    if name in XIL:
        v.check('BAR', v.eq(f.bar_id, bar))
        v.check('BAR size', v.eq(f.bar_aperture, BARS[hit][bar][2]))
        v.check('target function', v.eq(f.completer_id.function, hit))
        same_packet(v, f, s, 'handed over: ', but=('completer_id',))
    else:
        v.check('BAR', v.eq(f.bar_range, 6 if tname in IO else bar))
        v.check('target function', v.eq(f.func_num, hit))
        same_packet(v, f.tlp, s, 'handed over: ')


@contract('P29', cases=[(m, t, e) for m in MODELS for t in ('CFG_READ_0', 'CFG_WRITE_0', 'CFG_READ_1', 'CFG_WRITE_1')
                        for e in ((True, False) if m in XIL else (True,))], covers=['routed'])
def config(v, case):
    """ensures: a type 0 configuration request is passed to exactly the function it addresses, the device takes the bus
    number from it; one for no function and a type 1 request is completed as unsupported; while configuration space is
    disabled: retry status"""
    name, tname, enabled = case
    m = Model(v, name)
    t = request_of(v, tname)
    s, fc = Snap(t), Fc(t)
    seen = []

    def handler(k):
        async def h(tlp):
            seen.append((k, tlp))
            tlp.release_fc()
        return h
    for k, f in enumerate(m.dev.functions):
        v.put(f, 'upstream_recv', handler(k))
    if not enabled:
        v.put(m.dev, 'config_space_enable', False)
    task = m.sim.start(m.dev.upstream_port.rx_handler(t))
    m.sim.run_ready()
    v.check('reception ends', task.done())
    v.check('credits are returned exactly once', fc.n == 1)
    v.check('not handed to the user', not m.req.sent)
    v.cover('routed')
    if tname.endswith('0') and enabled:
        v.check('bus number is captured', v.eq(m.dev.bus_num, s.completer_id.bus))
        v.check('functions answer to the bus number', v.And(*[v.eq(f.pcie_id.bus, s.completer_id.bus) for f in m.dev.functions]))
        here = v.And(v.eq(s.completer_id.device, 0), s.completer_id.function < 2)
        if bool(here):
            v.check('passed to one function', len(seen) == 1 and not m.up.sent)
            v.check('passed to the function addressed', v.eq(seen[0][0], s.completer_id.function))
            same_packet(v, seen[0][1], s, 'passed on: ')
            return
    v.check('not passed to a function', not seen)
    v.check('completed once', len(m.up.sent) == 1)
    st = m.T.CplStatus
    check_cpl(v, m.up.sent[0], s, st.UR if enabled or tname.endswith('1') else st.CRS)


TAGS = [31]


@contract('P29', cases=[(m, t, r, k) for m in XIL for t in ('CPL', 'CPL_DATA') for r in ('read', 'io', None) for k in TAGS[:1]] +
          [Thorough((m, t, r, 63)) for m in XIL for t in ('CPL', 'CPL_DATA') for r in ('read', 'io', None)], covers=['forwarded'],
          bounded='tag 31 (thorough also 63); payload of 3 DW, contents arbitrary')
def completion(v, case):
    """ensures: a completion for one of the functions is handed to the user exactly once with the error code the product
    guide defines for it, the low 12 bits of the address of its first byte, and marked as the last one iff it is; exactly
    then its tag is free again"""
    name, tname, r, tag = case
    m = Model(v, name)
    d, E, st = m.dev, m.UT.ErrorCode, m.T.CplStatus
    other = m.UT.Tlp_us(sym_tlp(v, 'MEM_READ', 'other '))
    active = [None] * 256
    q = None
    if r is not None:
        q = m.UT.Tlp_us(sym_tlp(v, 'MEM_READ_64' if r == 'read' else 'IO_READ', 'q '))
        if r == 'io':
            q.length, q.last_be = 1, 0
        v.assume(v.eq(q.requester_id.device, 0))
        active[tag] = q
    active[(tag + 1) % 256] = other
    v.put(d, 'active_request', active)
    t = sym_tlp(v, tname)
    t.tag = tag
    if tname == 'CPL_DATA':
        t.length = 3
        t.data = v.bytes('payload', 12, True)
    else:
        t.length = 0
    s, fc = Snap(t), Fc(t)
    m.receive(t)
    v.check('credits are returned exactly once', fc.n == 1)
    v.check('no answer to a completion', not m.up.sent and not m.req.sent)
    v.check('other tags stay in use', all((active[k] is not None) == (k == (tag + 1) % 256) for k in range(256) if k != tag))
    ours = v.And(v.eq(s.requester_id.bus, m.bus), v.eq(s.requester_id.device, 0), s.requester_id.function < 2)
    if not bool(ours):
        v.check('a completion for someone else is dropped', not m.cpl.sent and active[tag] is q)
        return
    v.cover('forwarded')
    v.check('handed over exactly once', len(m.cpl.sent) == 1)
    f = m.cpl.sent[0]
    same_packet(v, f, s, 'handed over: ', but=('lower_address',))
    if q is None:
        v.check('error: no request with that tag', f.error_code == E.INVALID_TAG)
        v.check('nothing is completed', not f.request_completed)
        return
    if not bool(v.And(id_eq(v, s.requester_id, q.requester_id), v.eq(s.attr, q.attr), v.eq(s.tc, q.tc))):
        v.check('error: fields differ from the request', f.error_code == E.MISMATCH)
        v.check('the request stays open', active[tag] is q and not f.request_completed)
        return
    if s.status != st.SC:
        v.check('error: bad status', f.error_code == E.BAD_STATUS)
        last = True
    elif r == 'io':
        v.check('error code', f.error_code == (E.POISONED if bool(s.ep) else E.NORMAL_TERMINATION))
        last = True
    else:
        at = q.address + q.get_first_be_offset() + q.get_be_byte_count() - s.byte_count
        right = bool(v.eq(s.lower_address, at & 0x7f))
        want = E.INVALID_LENGTH if tname == 'CPL' else E.INVALID_ADDRESS if not right else E.POISONED if bool(s.ep) \
            else E.NORMAL_TERMINATION
        v.check('error code', f.error_code == want)
        if right:
            v.check('address of the first byte', v.eq(f.lower_address, at & 0xfff))
        last = tname == 'CPL' or bool(s.byte_count <= 12 - (s.lower_address & 3))
    v.check('last completion is marked', bool(f.request_completed) == last)
    v.check('tag is free exactly after the last completion', (active[tag] is None) == last)


@contract('P29', cases=[(m, t) for m in INTEL for t in ('CPL', 'CPL_DATA')], covers=['forwarded'],
          bounded='payload of 3 DW, contents arbitrary')
def completion_intel(v, case):
    """ensures: a completion for function k is handed over exactly once, unchanged, naming k; others are dropped"""
    name, tname = case
    m = Model(v, name)
    t = sym_tlp(v, tname)
    if tname == 'CPL_DATA':
        t.length = 3
        t.data = v.bytes('payload', 12, True)
    else:
        t.length = 0
    s, fc = Snap(t), Fc(t)
    m.receive(t)
    v.check('credits are returned exactly once', fc.n == 1)
    v.check('no answer to a completion', not m.up.sent)
    if not bool(v.And(v.eq(s.requester_id.bus, m.bus), v.eq(s.requester_id.device, 0), s.requester_id.function < 2)):
        v.check('a completion for someone else is dropped', not m.req.sent)
        return
    v.cover('forwarded')
    v.check('handed over exactly once', len(m.req.sent) == 1)
    f = m.req.sent[0]
    v.check('function', v.eq(f.func_num, s.requester_id.function))
    same_packet(v, f.tlp, s, 'handed over: ')


@contract('P29', cases=[(m, t) for m in INTEL for t in MEM + ['CPL', 'CPL_DATA', 'IO_READ']], covers=['sent'],
          bounded='payload of 3 DW, contents arbitrary')
def transmit_intel(v, case):
    """ensures: every packet of the user is sent exactly once, unchanged, in order"""
    name, tname = case
    m = Model(v, name)
    ts = []
    for k in range(2):
        t = sym_tlp(v, tname, 't%d ' % k)
        t.length = 3 if has_data(tname) else 0 if tname == 'CPL' else t.length
        if tname.startswith('IO'):
            t.length, t.last_be = 1, 0
            t.tc, t.attr, t.at = m.T.TlpTc(0), m.T.TlpAttr(0), m.T.TlpAt(0)
        if has_data(tname):
            t.data = v.bytes('payload%d' % k, 12, True)
        v.assume(t.check())
        ts.append((t, Snap(t)))
        m.tx.put(m.Frame(t))
    m.run()
    v.cover('sent')
    v.check('every packet is sent exactly once', len(m.up.sent) == 2)
    for x, (t, s) in zip(m.up.sent, ts):
        same_packet(v, x, s, 'sent: ')


def user_request(v, m, tname, p=''):
    t = m.UT.Tlp_us(sym_tlp(v, tname, p))
    t.ep = False
    if has_data(tname):
        t.length = 3
        t.data = v.bytes(p + 'payload', 12, True)
    v.assume(t.check())
    return t


@contract('P29', cases=[(m, t, c, b) for m in XIL for t in MEM for c in (True, False) for b in (True, False)], covers=['seen'],
          bounded='payload of 3 DW, contents arbitrary; client tags 0, 5 and 31')
def requester(v, case):
    """ensures: a request of the user is sent exactly once, unchanged but for the bus number the device fills in and, with
    tags managed by the core, its tag, and its sequence number is reported once; a discarded one and one of a function
    that is not bus master is not sent; with managed tags the tag is a free one and is reported"""
    name, tname, client, master = case
    seq, vld, tg, tv = (Wire() for _ in range(4))
    kw = dict(pcie_rq_seq_num=seq.w(4), pcie_rq_seq_num_vld=vld.w(1)) if name == 'us' else \
        dict(pcie_rq_seq_num0=seq.w(6), pcie_rq_seq_num_vld0=vld.w(1))
    if not client:
        kw.update(dict(pcie_rq_tag=tg.w(6), pcie_rq_tag_vld=tv.w(1)) if name == 'us' else
                  dict(pcie_rq_tag0=tg.w(8), pcie_rq_tag_vld0=tv.w(1)))
    m = Model(v, name, enable_client_tag=client, **kw)
    t = user_request(v, m, tname)
    fn = v.choice('the function', [0, 1])
    t.requester_id = t.requester_id._replace(device=0, function=fn)
    t.requester_id_enable, t.discontinue = v.bool('requester id enable'), v.bool('discontinue')
    t.seq_num = v.bits('seq num', 4)
    if client:
        t.tag = v.choice('the tag', [0, 5, 31])
    else:
        v.assume(t.tag < 32)
    m.dev.functions[fn].bus_master_enable = master
    m.dev.functions[1 - fn].bus_master_enable = not master
    s, active = Snap(t), list(v.get(m.dev, 'active_request'))
    m.rq.put(t)
    rep, tags = [], []
    for _ in range(TICKS):
        m.run(1)
        if vld.value:
            rep.append(seq.value)
        if tv.value:
            tags.append(tg.value)
    v.cover('seen')
    if not master or bool(t.discontinue):
        v.check('discarded request is not sent', not m.up.sent)
        v.check('no tag is used', v.get(m.dev, 'active_request') == active)
        return
    v.check('sent exactly once', len(m.up.sent) == 1)
    x = m.up.sent[0]
    same_packet(v, x, s, 'sent: ', but=('requester_id', 'tag'))
    v.check('requester id', id_eq(v, x.requester_id, s.requester_id if bool(t.requester_id_enable) else
                                  s.requester_id._replace(bus=m.bus)))
    v.check('sequence number is reported once', len(rep) == 1 and v.eq(rep[0], t.seq_num))
    if client or tname in POSTED:
        v.check('tag is kept', v.eq(x.tag, s.tag))
        v.check('no tag is reported', not tags)
    else:
        v.check('tag is free and in range', 0 <= x.tag < 32 and active[x.tag] is None)
        v.check('tag is reported once', tags == [x.tag])
    if tname not in POSTED:
        v.check('the tag is in use', m.dev.active_request[x.tag] is not None)


class Wire:
    """an output of the device"""
    value = 0

    def w(self, n):
        self.n = n
        return self

    def __len__(self):
        return self.n

    def setimmediatevalue(self, x):
        self.value = x

    def __int__(self):
        return self.value


@contract('P29', cases=[(m, e) for m in XIL for e in (False, True)], covers=['exhausted'],
          bounded='one history: all tags used, three requests more, then completions')
def tags_run_out(v, case):
    """with tags managed by the core: a request that finds no free tag waits, and is sent once a completion frees one; tags
    in use are distinct at all times"""
    name, ext = case
    m = Model(v, name, enable_client_tag=False, enable_extended_tag=ext)
    m.dev.functions[0].pcie_cap.extended_tag_field_enable = ext
    m.dev.functions[0].bus_master_enable = True
    n = 32 if not ext else 64 if name == 'us' else 256
    tt = m.T.TlpType
    addr = v.bits('addr', 30) << 2
    for k in range(n + 3):
        t = m.UT.Tlp_us()
        t.fmt_type, t.length, t.address, t.first_be = tt.MEM_READ, 1, addr, 0xf
        t.requester_id = m.dev.functions[0].pcie_id
        t.requester_id_enable = True
        m.rq.put(t)
    m.run()
    tags = [x.tag for x in m.up.sent]
    v.check('a request is sent for every tag', len(tags) == n)
    v.check('tags are distinct and in range', sorted(tags) == list(range(n)))
    v.cover('exhausted')
    for k in range(3):
        free = tags[2 * k]
        c = m.T.Tlp.create_completion_data_for_tlp(m.up.sent[2 * k], v.mod('core.utils').PcieId(0, 0, 0))
        c.set_data(v.bytes('d%d' % k, 4))
        c.byte_count, c.lower_address, c.status = 4, m.up.sent[2 * k].address & 0x7f, m.T.CplStatus.SC
        Fc(c)
        m.receive(c)
        v.check('a waiting request is sent when a tag is free', len(m.up.sent) == n + k + 1)
        v.check('with the tag that is free', v.eq(m.up.sent[-1].tag, free))
        v.check('the tag is in use', m.dev.active_request[free] is not None)
        v.check('the completion is accepted', m.cpl.sent[-1].error_code == m.UT.ErrorCode.NORMAL_TERMINATION)
    v.check('completions are handed over', len(m.cpl.sent) == 3)


@contract('P29', cases=list(XIL), covers=['seen'], bounded='payload of 3 DW, contents arbitrary')
def completer(v, name):
    """ensures: a completion of the user is sent exactly once with the device's bus number filled in unless the user gives
    it; a discarded one is not sent"""
    m = Model(v, name)
    t = m.UT.Tlp_us(sym_tlp(v, 'CPL_DATA'))
    t.length, t.data = 3, v.bytes('payload', 12, True)
    v.assume(t.check())
    t.completer_id_enable, t.discontinue = v.bool('completer id enable'), v.bool('discontinue')
    s = Snap(t)
    m.cc.put(t)
    m.run()
    v.cover('seen')
    if bool(t.discontinue):
        v.check('discarded completion is not sent', not m.up.sent)
        return
    v.check('sent exactly once', len(m.up.sent) == 1)
    same_packet(v, m.up.sent[0], s, 'sent: ', but=('completer_id',))
    v.check('completer id', id_eq(v, m.up.sent[0].completer_id, s.completer_id if bool(t.completer_id_enable) else
                                  s.completer_id._replace(bus=m.bus)))


@contract('P29', cases=[(m, p) for m in XIL for p in range(8)], covers=['offered'],
          bounded='one history of six requests and eight cycles per pattern of the credit input')
def nonposted_flow(v, case):
    """the user's credits for non-posted requests: never more of them are handed over than credits were given, posted
    requests are not held up, each kind stays in order, and none is lost"""
    name, pat = case
    cr = Wire().w(1 if name == 'us' else 2)
    m = Model(v, name, **{'pcie_cq_np_req': cr})
    v.put(m.dev, 'cq_np_req_count', 0)
    sizes = [('MEM_READ', 0), ('MEM_WRITE', 0), ('MEM_READ_64', 0), ('MEM_WRITE', 1), ('MEM_READ', 1), ('MEM_WRITE_64', 3)]
    todo, given = list(sizes), 0
    sent = {}
    for k in range(8):
        while todo and todo[0][1] <= k:
            tname, _ = todo.pop(0)
            t = request_of_(v, tname, 'r%d ' % len(todo))
            sent.setdefault(tname in POSTED, []).append(Snap(t))
            m.decode(t, 0, 2)
            Fc(t)
            m.sim.start(m.dev.upstream_port.rx_handler(t))
            m.sim.run_ready()
        cr.value = (pat >> k % 3) & 1
        given += cr.value
        m.run(1)
        np = [x for x in m.req.sent if not x.is_posted()]
        v.check('non-posted requests need a credit', len(np) <= given)
        v.check('a credit lets one pass', len(np) >= min(given, len(sent.get(False, []))))
        v.check('posted requests pass', len(m.req.sent) - len(np) == len(sent.get(True, [])))
    v.cover('offered')
    for posted in (True, False):
        got = [x for x in m.req.sent if x.is_posted() == posted]
        for x, s in zip(got, sent[posted]):
            same_packet(v, x, s, 'in order: ', but=('completer_id',))


def request_of_(v, tname, p):
    t = sym_tlp(v, tname, p)
    if has_data(tname):
        t.length, t.data = 3, v.bytes(p + 'payload', 12, True)
    return t


CH = {'ph': 8, 'pd': 12, 'nph': 8, 'npd': 12, 'cplh': 8, 'cpld': 12}


@contract('P29', cases=[('us', s) for s in (0, 1, 2, 4, 5, 6)] + [('usp', s) for s in (2, 4, 5, 6)], covers=['shown'])
def flow_control_status(v, case):
    """ensures: the flow control status outputs show what cfg_fc_sel selects: credits granted and not used, limit and credits
    used, of the receiving and of the transmitting side"""
    name, sel = case
    out = {c: Wire().w(n) for c, n in CH.items()}
    s = Wire().w(3)
    s.value = sel
    m = Model(v, name, cfg_fc_sel=s, **{'cfg_fc_' + c: w for c, w in out.items()})
    st = {}
    for c, n in CH.items():
        ch = getattr(m.dev.upstream_port.fc_state[0], c)
        st[c] = x = [v.bits(c + k, n) for k in ('rl', 'rc', 'tl', 'tc')]
        for k, y in zip(('rx_credits_allocated', 'rx_credits_received', 'tx_credit_limit', 'tx_credits_consumed'), x):
            v.put(ch, k, y)
        v.put(ch, 'rx_initial_allocation', 1)
        v.put(ch, 'tx_initial_allocation', 1)
    m.run(2)
    v.cover('shown')
    for c, n in CH.items():
        rl, rc, tl, tc = st[c]
        want = {0: (rl - rc) % (1 << n), 1: rl, 2: rc, 4: (tl - tc) % (1 << n), 5: tl, 6: tc}[sel]
        v.check('%s shown' % c, v.eq(out[c].value, want))

"""Ports: flow control credits (P06), sequence numbers and acknowledgement (P07), link negotiation (P26)."""
from vc.reg import contract, Thorough
from vc.contracts._common import sym_tlp, has_data, Snap, same_packet
from vc.contracts._loops import StateLoop

# ---------------------------------------------------------------- P26

SPEEDS = [None, 1, 2, 3, 4, 5]
WIDTHS = [None, 1, 2, 4, 8, 16, 32]


def best(a, b):
    """the smaller of two limits, or the only one given"""
    return a if b is None else b if a is None else min(a, b)


def simport(v, tag):
    p = v.mod('core.port').SimPort()
    p.max_link_speed = v.choice(tag + '.speed', SPEEDS)
    p.max_link_width = v.choice(tag + '.width', WIDTHS)
    return p


def link(p):
    return p.other, p.cur_link_speed, p.cur_link_width


@contract('P26', cases=['a.connect(b)', 'b.connect(a)', 'a.connect(device b)', 'device b.connect(a)',
                        'a.connect(switch b)'], covers=['m'], wall=400)
def negotiate(v, how):
    """ensures both ends point at each other and report the same speed and width: the best both support"""
    v.mod('cocotb').reset()
    a = simport(v, 'a')
    if 'device' in how:
        dev = v.mod('core.device').Device()
        b = dev.upstream_port
    elif 'switch' in how:
        dev = v.mod('core.switch').Switch()
        b = dev.upstream_bridge.upstream_port
    else:
        b = v.mod('core.port').SimPort()
    b.max_link_speed = v.choice('b.speed', SPEEDS)
    b.max_link_width = v.choice('b.width', WIDTHS)
    v.check('not connected yet', a.other is None and b.other is None)
    if how == 'a.connect(b)':
        a.connect(b)
    elif how == 'b.connect(a)':
        b.connect(a)
    elif how == 'device b.connect(a)':
        dev.connect(a)
    else:
        a.connect(dev)
    v.cover('m')
    v.check('connected to each other', a.other is b and b.other is a)
    s = best(a.max_link_speed, b.max_link_speed)
    w = best(a.max_link_width, b.max_link_width)
    v.check('same speed at both ends', a.cur_link_speed == b.cur_link_speed)
    v.check('same width at both ends', a.cur_link_width == b.cur_link_width)
    v.check('speed is the best both support', a.cur_link_speed == s)
    v.check('width is the best both support', a.cur_link_width == w)


@contract('P26', cases=['a.connect(c)', 'c.connect(a)', 'b.connect(c)', 'c.connect(b)', 'a.connect(b)',
                        'b.connect(a)', 'device.connect'], covers=['m'])
def connect_once(v, how):
    """a connected port refuses another connection; nothing changes"""
    M = v.mod('core.port')
    v.mod('cocotb').reset()
    ps = {}
    dev = v.mod('core.device').Device()
    ps['a'] = dev.upstream_port
    ps['b'] = M.SimPort()
    ps['c'] = M.SimPort()
    for k in 'abc':
        ps[k].max_link_speed = v.choice(k + '.speed', [None, 1, 3, 5])
        ps[k].max_link_width = v.choice(k + '.width', [None, 1, 16])
    if v.bool('first direction'):
        ps['a'].connect(ps['b'])
    else:
        ps['b'].connect(ps['a'])
    before = [link(ps[k]) for k in 'abc']
    if how == 'device.connect':
        r, e = v.raises(dev.connect, ps['c'])
    else:
        r, e = v.raises(ps[how[0]].connect, ps[how[-2]])
    v.cover('m')
    v.check('refused', e is not None)
    v.check('nothing changed', [link(ps[k]) for k in 'abc'] == before)


# ---------------------------------------------------------------- P06: counters

H, D = 12, 16
KIND = {'FcStateHeader': H, 'FcStateData': D}


@contract('P06', cases=sorted(KIND), covers=['finite', 'infinite'])
def fc_tx_counter(v, cls):
    """ghost: T_l units ever granted, T_c units ever consumed, 0 <= T_l - T_c < 2^n.  ensures available == T_l - T_c and
    that consuming fc <= available units keeps the counters equal to the ghost totals mod 2^n; infinite: never less
    than a packet can need, whatever is consumed"""
    n = KIND[cls]
    R = 1 << n
    f = getattr(v.mod('core.port'), cls)(v.int('init', -1, R // 2 - 1))
    infinite = v.choice('infinite', [False, True])
    rx = (f.rx_credits_allocated, f.rx_credits_received, f.rx_initial_allocation)
    if infinite:
        v.put(f, 'tx_initial_allocation', 0)
        v.put(f, 'tx_credit_limit', v.int('limit', 0, R - 1))
        v.put(f, 'tx_credits_consumed', v.int('consumed', 0, R - 1))
        fc = v.int('fc', 0, 256)
        v.check('infinite credits suffice', f.tx_credits_available >= 256)
        f.tx_consume_fc(fc)
        v.check('infinite credits never run out', f.tx_credits_available >= 256)
        v.check('infinite', v.truth(f.tx_is_infinite()))
        v.cover('infinite')
        return
    v.put(f, 'tx_initial_allocation', v.int('alloc', 1, R - 1))
    tl = v.int('granted', 0, (1 << 40) - 1)
    out = v.int('left', 0, R - 1)
    v.assume(out <= tl)
    tc = tl - out
    v.put(f, 'tx_credit_limit', tl & (R - 1))
    v.put(f, 'tx_credits_consumed', tc & (R - 1))
    v.check('available', v.eq(f.tx_credits_available, out))
    fc = v.int('fc', 0, 256)
    v.assume(fc <= out)
    f.tx_consume_fc(fc)
    v.cover('finite')
    v.check('available after consumption', v.eq(f.tx_credits_available, out - fc))
    v.check('consumed counts modulo 2^n', v.eq(f.tx_credits_consumed, (tc + fc) & (R - 1)))
    v.check('limit unchanged', v.eq(f.tx_credit_limit, tl & (R - 1)))
    v.check('receive side unchanged', v.And(v.eq(f.rx_credits_allocated, rx[0]), v.eq(f.rx_credits_received, rx[1]),
                                            v.eq(f.rx_initial_allocation, rx[2])))


@contract('P06', cases=sorted(KIND), covers=['finite', 'infinite', 'range'])
def fc_rx_counter(v, cls):
    """receiver: allocated - received (mod 2^n) is the initial allocation minus what is held, for every history of
    consumption and release; initial allocations that cannot be represented are rejected"""
    n = KIND[cls]
    R = 1 << n
    C = getattr(v.mod('core.port'), cls)
    init = v.int('init', -1, R)
    f, e = v.raises(C, init)
    if e is not None:
        v.check('only unrepresentable allocations are rejected', init >= R // 2)
        v.cover('range')
        return
    v.check('unrepresentable allocations are rejected', init < R // 2)
    init = v.max(init, 0)
    if v.eq(init, 0):
        f.rx_consume_fc(v.int('c', 0, 256))
        f.rx_release_fc(v.int('r', 0, 256))
        v.check('infinite: nothing to return', v.And(v.eq(f.rx_credits_allocated, 0), f.rx_credits_available >= 256))
        v.cover('infinite')
        return
    rel = v.int('released', 0, (1 << 40) - 1)
    held = v.int('held', 0, R // 2 - 1)
    v.assume(held <= init)
    v.put(f, 'rx_credits_allocated', (init + rel) & (R - 1))
    v.put(f, 'rx_credits_received', (rel + held) & (R - 1))
    v.check('available', v.eq(f.rx_credits_available, init - held))
    fc = v.int('fc', 0, 256)
    if v.bool('consume'):
        v.assume(held + fc <= init)
        f.rx_consume_fc(fc)
        v.check('available after consumption', v.eq(f.rx_credits_available, init - held - fc))
        v.check('nothing granted', v.eq(f.rx_credits_allocated, (init + rel) & (R - 1)))
        v.check('received', v.eq(f.rx_credits_received, (rel + held + fc) & (R - 1)))
    else:
        v.assume(fc <= held)
        f.rx_release_fc(fc)
        v.check('available after release', v.eq(f.rx_credits_available, init - held + fc))
        v.check('granted', v.eq(f.rx_credits_allocated, (init + rel + fc) & (R - 1)))
        v.check('received unchanged', v.eq(f.rx_credits_received, (rel + held) & (R - 1)))
    v.cover('finite')


# ---------------------------------------------------------------- P06: channel

TYPES = ['P', 'NP', 'CPL']
FIELDS = {'P': ('ph', 'pd'), 'NP': ('nph', 'npd'), 'CPL': ('cplh', 'cpld')}
COUNTERS = [f for t in TYPES for f in FIELDS[t]]
STATE = ['tx_initial_allocation', 'tx_credit_limit', 'tx_credits_consumed', 'rx_credits_allocated',
         'rx_credits_received', 'rx_initial_allocation']
TLPS = {'P': ['MEM_WRITE', 'MEM_WRITE_64', 'MSG_TO_RC', 'MSG_DATA_ID'],
        'NP': ['MEM_READ', 'MEM_READ_64', 'IO_READ', 'IO_WRITE', 'CFG_READ_0', 'CFG_WRITE_1', 'FETCH_ADD', 'CAS_64'],
        'CPL': ['CPL', 'CPL_DATA']}


def channel(v, active=True, init=True, types=TYPES, rx=True):
    """flow control channel in an arbitrary state, initialised; counters of the listed types are arbitrary"""
    M = v.mod('core.port')
    started = []
    ch = M.FcChannelState([0] * 6, lambda: started.append(1))
    for t in TYPES:
        for i, f in enumerate(FIELDS[t]):
            R = 1 << (H, D)[i]
            c = v.get(ch, f)
            for s in STATE:
                if rx or s.startswith('tx'):
                    v.put(c, s, v.int('%s.%s' % (f, s), 0, R - 1) if t in types else 5)
    ch.active = active
    if init:
        for n in ('fi1', 'fi1p', 'fi1np', 'fi1cpl', 'fi2'):
            v.put(ch, n, True)
        ch.initialized.set()
    return ch, started


def state(v, ch):
    return {(f, s): getattr(getattr(ch, f), s) for f in COUNTERS for s in STATE}


def unchanged(v, ch, old, but=()):
    new = state(v, ch)
    for k in old:
        if k not in but:
            v.check('counter %s.%s unchanged' % k, v.eq(new[k], old[k]))


def avail(v, old, f):
    """credits of counter f in a snapshot"""
    n = H if f.endswith('h') else D
    lim, con, alloc = old[f, 'tx_credit_limit'], old[f, 'tx_credits_consumed'], old[f, 'tx_initial_allocation']
    return v.ite(v.eq(alloc, 0), 1 << 30, (lim - con) & ((1 << n) - 1))


def fctype(v, t):
    return v.mod('core.dllp').FcType[t]


@contract('P06', cases=TYPES, covers=['m'])
def channel_tx(v, t):
    """tx_has_credit: exactly one header and dc data credits of this type; tx_consume_fc takes exactly those"""
    ch, _ = channel(v)
    old = state(v, ch)
    dc = v.int('dc', 0, 256)
    h, d = FIELDS[t]
    ok = v.And(avail(v, old, h) >= 1, avail(v, old, d) >= dc)
    v.check('has credit', v.eq(v.truth(ch.tx_has_credit(fctype(v, t), dc)), ok))
    unchanged(v, ch, old)
    ch.tx_consume_fc(fctype(v, t), dc)
    v.cover('m')
    hk, dk = (h, 'tx_credits_consumed'), (d, 'tx_credits_consumed')
    unchanged(v, ch, old, but=[hk, dk])
    new = state(v, ch)
    v.check('header credit consumed', v.Implies(old[h, 'tx_initial_allocation'] != 0,
                                                v.eq(new[hk], (old[hk] + 1) & 0xfff)))
    v.check('data credits consumed', v.Implies(old[d, 'tx_initial_allocation'] != 0,
                                               v.eq(new[dk], (old[dk] + dc) & 0xffff)))


def any_tlp(v, t, name='tlp'):
    tn = v.choice(name + '.type', TLPS[t])
    p = v.mod('core.tlp').Tlp()
    p.fmt_type = v.mod('core.tlp').TlpType[tn]
    p.length = v.int(name + '.length', 1, 1024)
    if has_data(tn):
        p.data = v.bytes(name + '.data', p.length * 4, mutable=True)
    return p, ((p.length + 3) // 4 if has_data(tn) else 0)


@contract('P06', cases=TYPES, covers=['m'])
def channel_rx(v, t):
    """an accepted packet uses one header credit and its data credits of its type; its first release hands exactly
    those back (and triggers an update), every other one nothing; copies carry no release"""
    ch, started = channel(v)
    old = state(v, ch)
    p, dc = any_tlp(v, t)
    h, d = FIELDS[t]
    ch.rx_process_tlp_fc(p)
    v.cover('m')
    new = state(v, ch)
    hk, dk = (h, 'rx_credits_received'), (d, 'rx_credits_received')
    unchanged(v, ch, old, but=[hk, dk])
    v.check('header credit used', v.Implies(old[h, 'rx_initial_allocation'] != 0,
                                            v.eq(new[hk], (old[hk] + 1) & 0xfff)))
    v.check('data credits used', v.Implies(old[d, 'rx_initial_allocation'] != 0,
                                           v.eq(new[dk], (old[dk] + dc) & 0xffff)))
    v.check('no update yet', not started)
    old = new
    q = v.mod('core.tlp').Tlp(p)
    q.release_fc()
    unchanged(v, ch, old)
    p.release_fc()
    new = state(v, ch)
    hk, dk = (h, 'rx_credits_allocated'), (d, 'rx_credits_allocated')
    unchanged(v, ch, old, but=[hk, dk])
    v.check('header credit returned', v.Implies(old[h, 'rx_initial_allocation'] != 0,
                                                v.eq(new[hk], (old[hk] + 1) & 0xfff)))
    v.check('data credits returned', v.Implies(old[d, 'rx_initial_allocation'] != 0,
                                               v.eq(new[dk], (old[dk] + dc) & 0xffff)))
    v.check('update is scheduled', started)
    old = new
    p.release_fc()
    q.release_fc()
    unchanged(v, ch, old)


@contract('P06', covers=['m'])
def channel_rx_many(v):
    """two packets held at once, released in any order, the first one again: every credit comes back exactly once"""
    ch, _ = channel(v, types=())
    ps = []
    sums = {}
    for k in range(2):
        t = v.choice('type %d' % k, TYPES)
        p, dc = any_tlp(v, t, 'tlp%d' % k)
        ps.append((p, t, dc))
        ch.rx_process_tlp_fc(p)
    old = state(v, ch)
    order = v.choice('order', [(0, 1), (1, 0), (0, 0), (1, 1), (0, 1, 0), (1, 0, 1, 0)])
    for k in order:
        ps[k][0].release_fc()
    v.cover('m')
    new = state(v, ch)
    for t in TYPES:
        h, d = FIELDS[t]
        rel = [ps[k] for k in set(order) if ps[k][1] == t]
        v.check('header credits returned', v.eq(new[h, 'rx_credits_allocated'],
                                                old[h, 'rx_credits_allocated'] + len(rel)))
        v.check('data credits returned', v.eq(new[d, 'rx_credits_allocated'],
                                              old[d, 'rx_credits_allocated'] + sum([r[2] for r in rel])))
    if v.bool('then reset'):
        for p, t, dc in ps:
            ch.rx_process_tlp_fc(p)
        ch.reset()
        old = state(v, ch)
        for p, t, dc in ps:
            p.release_fc()
        unchanged(v, ch, old)


EV = {'P': 'fc_p_update', 'NP': 'fc_np_update', 'CPL': 'fc_cpl_update'}


def fc_dllp(v, kind, h, d, vc=0):
    M = v.mod('core.dllp')
    x = M.Dllp()
    x.type = M.DllpType[kind]
    x.vc = vc
    x.hdr_fc = h
    x.data_fc = d
    return x


@contract('P06', cases=TYPES, covers=['pass', 'blocked', 'released'])
def gate(v, t):
    """the credit gate, from an arbitrary channel state: it passes iff there is credit and then takes exactly the
    packet's credits; otherwise it takes nothing and waits, and re-examines an arbitrary later state when its type is
    updated.  (The waiting loop carries no local state, so one pass from an arbitrary state covers every iteration.)"""
    sim = v.mod('cocotb').reset()
    h, d = FIELDS[t]
    ch, _ = channel(v, types=[t], rx=False)
    p, dc = any_tlp(v, t)
    hk, dk = (h, 'tx_credits_consumed'), (d, 'tx_credits_consumed')
    old = state(v, ch)
    task = sim.start(ch.tx_tlp_fc_gate(p))
    sim.run_ready()

    def passed(old, what):
        new = state(v, ch)
        v.check(what + 'passes only with header credit', avail(v, old, h) >= 1)
        v.check(what + 'passes only with data credit', avail(v, old, d) >= dc)
        unchanged(v, ch, old, but=[hk, dk])
        v.check(what + 'header credit consumed', v.Implies(old[h, 'tx_initial_allocation'] != 0,
                                                           v.eq(new[hk], (old[hk] + 1) & 0xfff)))
        v.check(what + 'data credits consumed', v.Implies(old[d, 'tx_initial_allocation'] != 0,
                                                          v.eq(new[dk], (old[dk] + dc) & 0xffff)))
    if task.done():
        v.cover('pass')
        passed(old, '')
        return
    v.cover('blocked')
    v.check('blocks only without credit', v.Not(v.And(avail(v, old, h) >= 1, avail(v, old, d) >= dc)))
    unchanged(v, ch, old)
    # updates of the other types do not let it through
    for u in TYPES:
        if u != t:
            ch.handle_fc_dllp(fc_dllp(v, 'UPDATE_FC_' + u, 5, 5))
    sim.run_ready()
    v.check('still blocked', not task.done())
    # meanwhile others may have changed the state arbitrarily; then an update arrives
    for i, f in enumerate((h, d)):
        c = getattr(ch, f)
        R = 1 << (H, D)[i]
        v.put(c, 'tx_credits_consumed', v.int(f + '.later', 0, R - 1))
    hl, dl = v.int('hdr_fc', 0, 0xfff), v.int('data_fc', 0, 0xffff)
    v.assume(v.Implies(v.eq(getattr(ch, h).tx_initial_allocation, 0), v.eq(hl, 0)))
    v.assume(v.Implies(v.eq(getattr(ch, d).tx_initial_allocation, 0), v.eq(dl, 0)))
    ch.handle_fc_dllp(fc_dllp(v, 'UPDATE_FC_' + t, hl, dl))
    old = state(v, ch)
    sim.run_ready()
    if task.done():
        v.cover('released')
        passed(old, 'after update: ')
    else:
        v.check('after update: blocks only without credit',
                v.Not(v.And(avail(v, old, h) >= 1, avail(v, old, d) >= dc)))
        unchanged(v, ch, old)


@contract('P06', cases=[(t, u) for t in TYPES for u in TYPES], covers=['both', 'one'])
def gate_two(v, case):
    """two senders at the same gate (all interleavings at the await points): what passes together was covered by
    credit, and a sender whose credits are there is not left waiting"""
    t, u = case
    sim = v.mod('cocotb').reset()
    ch, _ = channel(v, types=sorted({t, u}), rx=False)
    for f in COUNTERS:
        v.assume(getattr(ch, f).tx_initial_allocation != 0)
    p, dp = any_tlp(v, t, 'p')
    q, dq = any_tlp(v, u, 'q')
    old = state(v, ch)
    tp, tq = sim.start(ch.tx_tlp_fc_gate(p)), sim.start(ch.tx_tlp_fc_gate(q))
    if v.bool('q first'):
        sim.ready.reverse()
    sim.run_ready()

    def rule(old, np, nq, what):
        for x in TYPES:
            h, d = FIELDS[x]
            hs = (np if x == t else 0) + (nq if x == u else 0)
            ds = (dp if np and x == t else 0) + (dq if nq and x == u else 0)
            v.check(what + 'header credits cover what was sent', avail(v, old, h) >= hs)
            v.check(what + 'data credits cover what was sent', avail(v, old, d) >= ds)
            new = state(v, ch)
            v.check(what + 'header credits accounted', v.eq(avail(v, new, h), avail(v, old, h) - hs))
            v.check(what + 'data credits accounted', v.eq(avail(v, new, d), avail(v, old, d) - ds))
    np, nq = int(tp.done()), int(tq.done())
    rule(old, np, nq, '')
    v.cover('both' if np and nq else 'one')
    for x, done, dc in ((t, np, dp), (u, nq, dq)):
        if not done:
            new = state(v, ch)
            h, d = FIELDS[x]
            v.check('blocks only without credit', v.Not(v.And(avail(v, new, h) >= 1, avail(v, new, d) >= dc)))
    if not (np and nq):
        # a later update of one blocked type
        x = t if not np else u
        h, d = FIELDS[x]
        ch.handle_fc_dllp(fc_dllp(v, 'UPDATE_FC_' + x, v.int('hdr_fc', 0, 0xfff), v.int('data_fc', 0, 0xffff)))
        old = state(v, ch)
        sim.run_ready()
        np2, nq2 = int(tp.done()) - np, int(tq.done()) - nq
        rule(old, np2, nq2, 'after update: ')
        new = state(v, ch)
        for y, done, dc in ((t, tp.done(), dp), (u, tq.done(), dq)):
            if not done and y == x:
                v.check('after update: blocks only without credit',
                        v.Not(v.And(avail(v, new, h) >= 1, avail(v, new, d) >= dc)))


@contract('P06', cases=TYPES, covers=['m'])
def gate_uninitialised(v, t):
    """nothing passes before flow control initialisation has completed"""
    sim = v.mod('cocotb').reset()
    ch, _ = channel(v, types=[t], rx=False, init=False)
    p, dc = any_tlp(v, t)
    old = state(v, ch)
    task = sim.start(ch.tx_tlp_fc_gate(p))
    sim.run_ready()
    v.cover('m')
    v.check('nothing is sent before initialisation', not task.done())
    unchanged(v, ch, old)


FCD = ['INIT_FC1_P', 'INIT_FC1_NP', 'INIT_FC1_CPL', 'INIT_FC2_P', 'INIT_FC2_NP', 'INIT_FC2_CPL',
       'UPDATE_FC_P', 'UPDATE_FC_NP', 'UPDATE_FC_CPL']
FLAGS = {'P': 'fi1p', 'NP': 'fi1np', 'CPL': 'fi1cpl'}


@contract('P06', cases=FCD, covers=['inactive', 'init1', 'init2', 'normal'])
def fc_init_machine(v, kind):
    """handle_fc_dllp, from an arbitrary state, does exactly what the initialisation protocol of the base specification
    (section 3.4.1) says for this DLLP"""
    stage, _, t = kind.rpartition('_')
    ch, started = channel(v, active=v.choice('active', [True, False]), init=False)
    phase = v.choice('phase', ['init1', 'init2', 'normal'])
    got = {}
    for x in TYPES:
        got[x] = True if phase != 'init1' else v.choice('seen ' + x, [False, True])
        v.put(ch, FLAGS[x], got[x])
    if phase == 'init1':
        v.assume(not all(got.values()))
    v.put(ch, 'fi1', phase != 'init1')
    v.put(ch, 'fi2', phase == 'normal')
    if phase == 'normal':
        ch.initialized.set()
    h, d = FIELDS[t]
    hf, df = v.int('hdr_fc', 0, 0xfff), v.int('data_fc', 0, 0xffff)
    if phase == 'normal':
        # an infinite advertisement is always updated with zero
        v.assume(v.Implies(v.eq(getattr(ch, h).tx_initial_allocation, 0), v.eq(hf, 0)))
        v.assume(v.Implies(v.eq(getattr(ch, d).tx_initial_allocation, 0), v.eq(df, 0)))
    old = state(v, ch)
    ch.handle_fc_dllp(fc_dllp(v, kind, hf, df))
    change = {}
    exp1, exp2 = phase != 'init1', phase == 'normal'
    if not ch.active:
        v.cover('inactive')
    elif phase == 'init1':
        v.cover('init1')
        if stage != 'UPDATE_FC':
            got[t] = True
            for f, val in ((h, hf), (d, df)):
                change[f, 'tx_initial_allocation'] = val
                change[f, 'tx_credit_limit'] = val
            exp1 = all(got.values())
    elif phase == 'init2':
        v.cover('init2')
        exp2 = stage != 'INIT_FC1'
    else:
        v.cover('normal')
        if stage == 'UPDATE_FC':
            change[h, 'tx_credit_limit'] = hf
            change[d, 'tx_credit_limit'] = df
    unchanged(v, ch, old, but=list(change))
    new = state(v, ch)
    for k, val in change.items():
        v.check('advertised value is taken', v.eq(new[k], val))
    for x in TYPES:
        v.check('credit type seen', bool(getattr(ch, FLAGS[x])) == got[x])
    v.check('leaves FC_INIT1 exactly when all types have been seen', bool(ch.fi1) == exp1)
    v.check('leaves FC_INIT2 exactly on InitFC2 or UpdateFC', bool(ch.fi2) == exp2)
    v.check('initialised exactly after FC_INIT2', bool(ch.initialized.is_set()) == exp2)
    v.check('nothing is released', not started)


# ---------------------------------------------------------------- ports

def tester(v):
    """a port whose physical side records what is transmitted"""
    M = v.mod('core.port')
    Tr = v.mod('cocotb.triggers')

    class Tester(M.Port):
        def __init__(self, *a, **k):
            self.sent = []
            self.got = []
            super().__init__(*a, **k)

            async def rx(tlp):
                self.got.append(tlp)
            self.rx_handler = rx

        async def handle_tx(self, pkt):
            self.sent.append(pkt)
            await Tr.Timer(1, 'step')
    return Tester


def dl(v, pkt):
    return isinstance(pkt, v.mod('core.dllp').Dllp)


def bring_up(v, sim, p, credits=None, first='INIT_FC1'):
    """flow control initialisation against a peer that advertises the given credits"""
    credits = credits or {}
    for t in TYPES:
        h, d = credits.get(t, (0, 0))
        v.mod('cocotb').start_soon(p.ext_recv(fc_dllp(v, first + '_' + t, h, d)))
    sim.run_for(3)
    v.mod('cocotb').start_soon(p.ext_recv(fc_dllp(v, 'INIT_FC2_P', 0, 0)))
    sim.run_for(8)
    p.sent.clear()


@contract('P06', covers=['m'], cases=[(), ('P', 'NP', 'CPL'), ('CPL', 'P', 'NP'), ('NP',)])
def port_init(v, order):
    """a port that has not finished initialisation cycles InitFC1 P/NP/CPL, from then InitFC2, all of them with its own
    initial credits; it sends no packet before the end"""
    sim = v.mod('cocotb').reset()
    ini = [v.int('init%d' % k, 0, (1 << (11, 15)[k & 1]) - 1) for k in range(6)]
    p = tester(v)([ini] + [[0] * 6] * 7)
    T = v.mod('core.tlp')
    t = T.Tlp()
    t.fmt_type = T.TlpType.MEM_WRITE
    t.length = 1
    sim.start(p.send(t))
    sim.run_for(7)
    for k, x in enumerate(order):
        sim.start(p.ext_recv(fc_dllp(v, 'INIT_FC1_' + x, 0, 0)))
        sim.run_for(3)
        full = set(order[:k + 1]) == set(TYPES)
    sim.run_for(10)
    done = set(order) == set(TYPES)
    seen = [x.type.name if dl(v, x) else 'TLP' for x in p.sent]
    v.cover('m')
    D = v.mod('core.dllp').DllpType
    v.check('no packet is sent', 'TLP' not in seen)
    v.check('only initialisation DLLPs are sent', all(n.startswith('INIT_FC') for n in seen))
    v.check('all of them are sent', {n[9:] for n in seen} == set(TYPES))
    stages = [n[:8] for n in seen]
    v.check('stage order', stages == sorted(stages))
    v.check('second stage exactly after all types have been received', ('INIT_FC2' in stages) == done)
    for x in p.sent:
        k = 2 * TYPES.index(x.type.name[9:])
        v.check('own header credits are advertised', v.eq(x.hdr_fc, ini[k]))
        v.check('own data credits are advertised', v.eq(x.data_fc, ini[k + 1]))
        v.check('on VC0', x.vc == 0)
    if done:
        sim.start(p.ext_recv(fc_dllp(v, 'INIT_FC2_NP', 0, 0)))
        sim.run_for(10)
        v.check('then the packet is sent', len([x for x in p.sent if not dl(v, x)]) == 1)


@contract('P06', cases=TYPES, covers=['m'])
def port_update(v, t):
    """after packets were received and released, in any state of the counters, the port advertises exactly its
    allocated counters, and does so for the released type without further stimulus"""
    sim = v.mod('cocotb').reset()
    p = tester(v)()
    bring_up(v, sim, p)
    sim.run_for(20)
    ch = p.fc_state[0]
    for x in TYPES:
        for i, f in enumerate(FIELDS[x]):
            R = 1 << (H, D)[i]
            c = v.get(ch, f)
            v.put(c, 'rx_initial_allocation', v.int(f + '.init', 0, R // 2 - 1))
            v.put(c, 'rx_credits_allocated', v.ite(v.eq(c.rx_initial_allocation, 0), 0, v.int(f + '.alloc', 0, R - 1)))
            v.put(c, 'rx_credits_received', v.int(f + '.received', 0, R - 1))
    old = state(v, ch)
    q, dc = any_tlp(v, t)
    q.seq = p.next_recv_seq
    sim.start(p.ext_recv(q))
    sim.run_for(10)
    v.check('delivered', len(p.got) == 1)
    p.sent.clear()
    p.got[0].release_fc()
    p.got[0].release_fc()
    q.release_fc()
    sim.run_for(10)
    v.cover('m')
    h, d = FIELDS[t]
    ups = [x for x in p.sent if dl(v, x) and x.type.name.startswith('UPDATE')]
    v.check('the released credits are advertised', any(x.type.name == 'UPDATE_FC_' + t for x in ups))
    for x in ups:
        xt = x.type.name[10:]
        hh, dd = FIELDS[xt]
        n = 1 if xt == t else 0
        v.check('header credits: initial allocation plus what was released, once',
                v.eq(x.hdr_fc, v.ite(v.eq(old[hh, 'rx_initial_allocation'], 0), 0,
                                     (old[hh, 'rx_credits_allocated'] + n) & 0xfff)))
        v.check('data credits: initial allocation plus what was released, once',
                v.eq(x.data_fc, v.ite(v.eq(old[dd, 'rx_initial_allocation'], 0), 0,
                                      (old[dd, 'rx_credits_allocated'] + n * dc) & 0xffff)))
        v.check('on VC0', x.vc == 0)


@contract('P06', cases=TYPES, covers=['sent', 'held'])
def port_send(v, t):
    """Port.send: hands back the ingress credits of a forwarded packet exactly once, and transmits it only with
    credit; without credit it is transmitted after a sufficient update"""
    sim = v.mod('cocotb').reset()
    p = tester(v)()
    h0, d0 = v.int('h', 0, 2), v.int('d', 0, 300)
    bring_up(v, sim, p, {t: (h0, d0)})
    sim.run_for(20)
    p.sent.clear()
    q, dc = any_tlp(v, t, 'q')
    r, dr = any_tlp(v, t, 'r')
    n = []
    q.release_fc_cb = lambda: n.append(1)
    sim.start(p.send(q))
    sim.start(p.send(r))
    sim.run_for(10)
    v.check('ingress credits are returned once', len(n) == 1)
    out = [x for x in p.sent if not dl(v, x)]
    v.check('no packet is duplicated', len(out) <= 2 and len(set(map(id, out))) == len(out))
    inf_h, inf_d = v.eq(h0, 0), v.eq(d0, 0)
    need = sum([dc if x is q else dr for x in out])
    v.check('header credits cover what was sent', v.Or(inf_h, h0 >= len(out)))
    v.check('data credits cover what was sent', v.Or(inf_d, d0 >= need))
    left = [x for x in (q, r) if not any(x is y for y in out)]
    for x in left:
        v.check('held back only for lack of credit',
                v.Not(v.And(v.Or(inf_h, h0 >= len(out) + 1), v.Or(inf_d, d0 >= need + (dc if x is q else dr)))))
    if not left:
        v.cover('sent')
        v.check('order is kept', out[0] is q and out[1] is r)
        return
    v.cover('held')
    # credits for everything arrive
    sim.start(p.ext_recv(fc_dllp(v, 'UPDATE_FC_' + t, v.ite(inf_h, 0, 2), v.ite(inf_d, 0, 600))))
    sim.run_for(10)
    out = [x for x in p.sent if not dl(v, x)]
    v.check('sent once credits have arrived', len(out) == 2 and any(x is q for x in out) and any(x is r for x in out))
    v.check('ingress credits are returned once', len(n) == 1)


# ---------------------------------------------------------------- P07

def live(v):
    sim = v.mod('cocotb').reset()
    p = tester(v)()
    bring_up(v, sim, p)
    sim.run_for(20)
    p.sent.clear()
    return sim, p


@contract('P07', cases=['MEM_WRITE', 'CPL_DATA', 'MEM_READ_64'], covers=['expected', 'duplicate', 'gap'])
def receive(v, kind):
    """from an arbitrary receiver state and for any sequence number: the expected packet is delivered unchanged and
    acknowledged, a duplicate is discarded and re-acknowledged, anything else is discarded and NAKed (once)"""
    sim, p = live(v)
    n = v.bits('next', 12)
    nak = v.choice('nak pending', [False, True])
    v.put(p, 'next_recv_seq', n)
    v.put(p, 'nak_scheduled', nak)
    t = sym_tlp(v, kind)
    if has_data(kind):
        t.data = v.bytes('payload', t.length * 4)
    t.seq = v.bits('seq', 12)
    s = Snap(t)
    sim.start(p.ext_recv(t))
    sim.run_for(12)
    acks = [x for x in p.sent if dl(v, x)]
    back = (n - t.seq) & 0xfff
    v.check('only acknowledgements are sent', len(acks) == len(p.sent) and all(
        x.type.name in ('ACK', 'NAK') for x in acks))
    if p.got:
        v.cover('expected')
        v.check('delivered once', len(p.got) == 1)
        v.check('only the expected packet is delivered', v.eq(t.seq, n))
        same_packet(v, p.got[0], s, 'delivered ')
        v.check('delivered packet is a copy', p.got[0] is not t and (p.got[0].data is not t.data or not has_data(kind)))
        v.check('next expected', v.eq(p.next_recv_seq, (n + 1) & 0xfff))
        v.check('acknowledged', len(acks) >= 1 and all(x.type.name == 'ACK' for x in acks))
        for x in acks:
            v.check('acknowledged sequence number', v.eq(x.seq, n))
        return
    v.check('the expected packet is delivered', t.seq != n)
    v.check('next expected is unchanged', v.eq(p.next_recv_seq, n))
    if back <= 2048:
        v.cover('duplicate')
        v.check('re-acknowledged', len(acks) >= 1)
        v.check('a duplicate causes no new NAK', nak or all(x.type.name == 'ACK' for x in acks))
    else:
        v.cover('gap')
        v.check('NAK for a gap, once', len(acks) == (0 if nak else 1))
        v.check('negative acknowledgement', all(x.type.name == 'NAK' for x in acks))
    for x in acks:
        v.check('acknowledges exactly what was received', v.eq(x.seq, (n - 1) & 0xfff))
    # progress: the expected packet is still accepted
    u = v.mod('core.tlp').Tlp()
    u.fmt_type = v.mod('core.tlp').TlpType.MEM_READ
    u.length = 1
    u.seq = n
    p.sent.clear()
    sim.start(p.ext_recv(u))
    sim.run_for(12)
    v.check('the expected packet is accepted afterwards', len(p.got) == 1)
    v.check('and acknowledged', len(p.sent) >= 1 and all(dl(v, x) and x.type.name == 'ACK' for x in p.sent))
    for x in p.sent:
        v.check('and acknowledged by number', v.eq(x.seq, n))


@contract('P07', cases=[(3, False), Thorough((4, False)), (3, True)], covers=['all', 'some', 'none'],
          bounded='histories of 3 (thorough: 4) arrivals')
def receive_history(v, case):
    """any history of arrivals (from reset, or from an arbitrary counter) delivers consecutive numbers, each once"""
    k, anywhere = case
    T = v.mod('core.tlp')
    sim, p = live(v)
    n0 = 0
    if anywhere:
        n0 = v.bits('next', 12)
        v.put(p, 'next_recv_seq', n0)
    seqs = []
    for i in range(k):
        t = T.Tlp()
        t.fmt_type = T.TlpType.MEM_WRITE
        t.length = 1
        t.data = bytearray(4)
        t.tag = i
        t.seq = v.bits('seq%d' % i, 12)
        seqs.append(t.seq)
        sim.start(p.ext_recv(t))
        sim.run_for(v.choice('gap%d' % i, [0, 12]))
    sim.run_for(12)
    v.cover('all' if len(p.got) == k else 'none' if not p.got else 'some')
    exp = n0
    j = 0
    for i in range(k):
        if v.eq(seqs[i], exp):
            v.check('the expected packet is delivered in order', j < len(p.got) and p.got[j].tag == i)
            exp = (exp + 1) & 0xfff
            j += 1
    v.check('nothing else is delivered', len(p.got) == j)
    acks = [x for x in p.sent if dl(v, x) and x.type.name in ('ACK', 'NAK')]
    v.check('something is acknowledged', acks)
    v.check('last acknowledgement covers exactly what was received', v.eq(acks[-1].seq, (exp - 1) & 0xfff))


@contract('P07', cases=['wrap', 'reset'], covers=['m'])
def transmit(v, how):
    """packets are numbered consecutively modulo 4096 from any counter value, transmitted in the order they were
    sent, and kept"""
    sim, p = live(v)
    n = 0
    if how == 'wrap':
        n = v.bits('next', 12)
        v.put(p, 'next_transmit_seq', n)
        v.put(p, 'ackd_seq', (n - 1) & 0xfff)
    ts = []
    for i in range(3):
        t, _ = any_tlp(v, ['P', 'NP', 'CPL'][i], 'tlp%d' % i)
        ts.append(t)
        sim.start(p.send(t))
        sim.run_for(v.choice('gap%d' % i, [0, 4]))
    sim.run_for(12)
    out = [x for x in p.sent if not dl(v, x)]
    v.cover('m')
    v.check('each packet is transmitted once, in order', len(out) == 3 and all(a is b for a, b in zip(out, ts)))
    for i, x in enumerate(out):
        v.check('consecutive numbers', v.eq(x.seq, (n + i) & 0xfff))
    v.check('next number', v.eq(p.next_transmit_seq, (n + 3) & 0xfff))
    v.check('kept until acknowledged', p.retry_buffer.qsize() == 3)


def ackd(v, kind, seq):
    x = v.mod('core.dllp').Dllp()
    x.type = v.mod('core.dllp').DllpType[kind]
    x.seq = seq
    return x


class Retry:
    """ghost retry buffer: `out` packets outstanding, counts what is released"""
    def __init__(self, v, out):
        self._v, self._out, self.popped = v, out, 0

    def get_nowait(self):
        self._v.check('only outstanding packets are released', self.popped < self._out)
        self.popped = self.popped + 1
        return object()

    def qsize(self):
        return self._out - self.popped

    def empty(self):
        return self._v.eq(self._out, self.popped)

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith('__') else NotImplementedError(n)


@contract('P07', cases=['ACK', 'NAK'], covers=['released', 'ignored'], ok_exc=(NotImplementedError,))
def acknowledge(v, kind):
    """for any number 0..2047 of outstanding packets, any counter value and any sequence number: an acknowledgement of
    an outstanding packet releases exactly the packets up to it, any other one changes nothing (loop contract:
    ackd_seq = a0 + k, k packets released, k <= the number of acknowledged packets)"""
    sim, p = live(v)
    a0 = v.bits('acked', 12)
    out = v.int('outstanding', 0, 2047)
    nxt = (a0 + out + 1) & 0xfff
    v.put(p, 'ackd_seq', a0)
    v.put(p, 'next_transmit_seq', nxt)
    buf = Retry(v, out)
    v.put(p, 'retry_buffer', buf)
    x = ackd(v, kind, v.bits('seq', 12))
    n = (x.seq - a0) & 0xfff
    if v.symbolic:
        def setk(k):
            p.ackd_seq = (a0 + k) & 0xfff
            buf.popped = k
        v.loops = StateLoop(v, 'cocotbext.pcie.core.port', 'while', n, setk,
                            lambda k: v.And(v.eq(p.ackd_seq, (a0 + k) & 0xfff), k <= n), lambda: buf.popped)
    _, e = v.raises(p.handle_dllp, x)
    v.loops = None
    ok = n <= out
    # replay after a NAK is not implemented by the port: it stops there (precondition: no NAK)
    v.check('acknowledgements are accepted', e is None or kind == 'NAK')
    if e is None or ok:
        if ok:
            v.cover('released')
            v.check('exactly the acknowledged packets are released', v.eq(buf.popped, n))
            v.check('last acknowledged', v.eq(p.ackd_seq, x.seq))
        else:
            v.cover('ignored')
            v.check('nothing is released', v.eq(buf.popped, 0))
            v.check('last acknowledged is unchanged', v.eq(p.ackd_seq, a0))
    else:
        v.check('acknowledgements outside the window are ignored', False)
    v.check('next number is unchanged', v.eq(p.next_transmit_seq, nxt))


@contract('P07', cases=[False, True], covers=['released', 'ignored'], bounded='3 packets, 2 acknowledgements')
def acknowledge_history(v, anywhere):
    """from the real transmitter: after three packets, two acknowledgements with any numbers release exactly the
    acknowledged packets, oldest first"""
    sim, p = live(v)
    n = 0
    if anywhere:
        n = v.bits('next', 12)
        v.put(p, 'next_transmit_seq', n)
        v.put(p, 'ackd_seq', (n - 1) & 0xfff)
    T = v.mod('core.tlp')
    ts = []
    for i in range(3):
        t = T.Tlp()
        t.fmt_type = T.TlpType.MEM_WRITE
        t.length = 1
        t.data = bytearray(4)
        ts.append(t)
        sim.start(p.send(t))
    sim.run_for(12)
    done = 0
    for i in range(2):
        s = v.bits('ack%d' % i, 12)
        sim.start(p.ext_recv(ackd(v, 'ACK', s)))
        sim.run_for(4)
        k = (s - n + 1) & 0xfff         # packets it acknowledges
        if v.And(k <= 3, k > done):
            v.cover('released')
            done = v.fix(k)
        else:
            v.cover('ignored')
        left = list(p.retry_buffer._queue)
        v.check('exactly the unacknowledged packets are kept', len(left) == 3 - done and all(
            a is b for a, b in zip(left, ts[done:])))
    v.check('packets are transmitted once', len([x for x in p.sent if not dl(v, x)]) == 3)


@contract('P07', covers=['m'], cases=[(1, 1), (5, 16)])
def link_transfer(v, case):
    """two connected ports: packets sent from both sides at once arrive unchanged, once, in order; all are
    acknowledged and nothing stays in a retry buffer"""
    sim = v.mod('cocotb').reset()
    M = v.mod('core.port')
    T = v.mod('core.tlp')
    ends = []
    for k in range(2):
        p = M.SimPort([[4, 16] * 3] + [[0] * 6] * 7)
        p.max_link_speed, p.max_link_width = case
        p.got = []

        def mk(p):
            async def rx(tlp):
                p.got.append(tlp)
                tlp.release_fc()
            return rx
        p.rx_handler = mk(p)
        n = v.bits('seq%d' % k, 12)
        v.put(p, 'next_transmit_seq', n)
        v.put(p, 'ackd_seq', (n - 1) & 0xfff)
        ends.append((p, n))
    (a, na), (b, nb) = ends
    v.put(a, 'next_recv_seq', nb)
    v.put(b, 'next_recv_seq', na)
    a.connect(b)
    sent = [[], []]
    for k, (p, n) in enumerate(ends):
        for i in range(7):
            t = T.Tlp()
            t.fmt_type = T.TlpType.MEM_WRITE if i % 2 else T.TlpType.CPL_DATA
            t.length = 4
            t.tag = v.bits('tag%d.%d' % (k, i), 8)
            t.data = v.bytes('data%d.%d' % (k, i), 16)
            sent[k].append(Snap(t))
            sim.start(p.send(t))
    sim.run_for(60 * 10 ** 9)
    v.cover('m')
    for k, (p, n) in enumerate(ends):
        q = ends[1 - k][0]
        v.check('all packets arrive once', len(q.got) == 7)
        for x, s in zip(q.got, [s for s in sent[k] if s.fmt_type == T.TlpType.CPL_DATA]
                        + [s for s in sent[k] if s.fmt_type != T.TlpType.CPL_DATA]):
            pass
        for ft in (T.TlpType.MEM_WRITE, T.TlpType.CPL_DATA):
            xs = [x for x in q.got if x.fmt_type == ft]
            ss = [s for s in sent[k] if s.fmt_type == ft]
            v.check('all packets of a type arrive', len(xs) == len(ss))
            for x, s in zip(xs, ss):
                same_packet(v, x, s)
        v.check('everything is acknowledged', v.And(p.retry_buffer.empty(), v.eq(p.ackd_seq, (n + 6) & 0xfff)))

"""Configuration requests (P13).  The register accesses are taken by contract: read returns the register's value,
write applies data under byte enables (established for the real registers in P10/P11/P12); ghost log of the calls."""
from vc.reg import contract, Thorough
from vc.contracts._common import single_dw, Sink, Fc, Snap, check_cpl, id_eq, mk_id


def target(v, cls):
    mods = {'Function': 'core.function', 'Endpoint': 'core.endpoint', 'MemoryEndpoint': 'core.endpoint',
            'Bridge': 'core.bridge', 'SwitchUpstreamPort': 'core.bridge', 'SwitchDownstreamPort': 'core.bridge',
            'RootPort': 'core.bridge'}
    base = getattr(v.mod(mods[cls]), cls)
    log = []
    val = v.bits('regval', 32)

    class F(base):
        async def read_config_register(self, reg):
            log.append(('r', reg))
            return val

        async def write_config_register(self, reg, data, mask):
            log.append(('w', reg, data, mask))

    f = F()
    up, down = Sink(), Sink()
    f.upstream_tx_handler = up
    if hasattr(f, 'downstream_tx_handler'):
        f.downstream_tx_handler = down
        f.sec_bus_num, f.sub_bus_num = v.bits('sec', 8), v.bits('sub', 8)
    f.pcie_id = mk_id(v, v.mod('core.utils'), 'me')
    return f, up, down, log, val


CLS = ['Function', 'Endpoint', 'MemoryEndpoint', 'Bridge', 'SwitchUpstreamPort', 'SwitchDownstreamPort', 'RootPort']


@contract('P13', cases=[(c, k) for c in CLS for k in ('CFG_READ_0', 'CFG_WRITE_0')], covers=['hit', 'miss'])
def config_request(v, case):
    """requires a well-formed type 0 configuration request, any function id.  ensures exactly one completion with the
    request's identity: successful with the register's value / after one write with the request's data and byte
    enables if device and function match (bus number captured first), otherwise UR and no effect"""
    cls, kind = case
    T = v.mod('core.tlp')
    f, up, down, log, val = target(v, cls)
    me = f.pcie_id
    t = single_dw(v, kind)
    s = Snap(t)
    fc = Fc(t)
    v.run(f.upstream_recv(t))
    hit = v.And(v.eq(s.completer_id.device, me.device), v.eq(s.completer_id.function, me.function))
    v.check('exactly one completion', len(up.sent) == 1)
    v.check('nothing is sent downstream', not down.sent)
    v.check('credits of the request are released once', fc.n == 1)
    c = up.sent[0]
    reg = s.address >> 2
    if hit:
        v.cover('hit')
        now = v.mod('core.utils').PcieId(s.completer_id.bus, me.device, me.function)
        v.check('bus number captured', id_eq(v, f.pcie_id, now))
        v.check('register accessed once', len(log) == 1)
        if kind == 'CFG_READ_0':
            v.check('the addressed register is read', v.And(log[0][0] == 'r', v.eq(log[0][1], reg)))
            check_cpl(v, c, s, T.CplStatus.SC, now, v.mk_bytes([val >> 8 * k & 0xff for k in range(4)]),
                      byte_count=4, lower=0)
        else:
            d = 0
            for k in range(4):
                d = d | v.byte(s.data, k) << 8 * k
            v.check('the addressed register is written with data and byte enables',
                    v.And(log[0][0] == 'w', v.eq(log[0][1], reg), v.eq(log[0][2], d), v.eq(log[0][3], s.first_be)))
            check_cpl(v, c, s, T.CplStatus.SC, now)
    else:
        v.cover('miss')
        v.check('no register is accessed', not log)
        v.check('id unchanged', id_eq(v, f.pcie_id, me))
        check_cpl(v, c, s, T.CplStatus.UR)


@contract('P13', cases=['CFG_READ_0', 'CFG_WRITE_0'], covers=['hit', 'miss'])
def config_handler(v, kind):
    """the registered handler itself answers a request for another function with one UR and no effect"""
    T = v.mod('core.tlp')
    f, up, down, log, val = target(v, 'Function')
    me = f.pcie_id
    t = single_dw(v, kind)
    s = Snap(t)
    v.run(f.handle_tlp(t))
    hit = v.And(v.eq(s.completer_id.device, me.device), v.eq(s.completer_id.function, me.function))
    v.check('exactly one completion', len(up.sent) == 1)
    if hit:
        v.cover('hit')
        v.check('register accessed once', len(log) == 1)
        v.check('successful', up.sent[0].status == T.CplStatus.SC)
    else:
        v.cover('miss')
        v.check('no register is accessed', not log)
        v.check('id unchanged', id_eq(v, f.pcie_id, me))
        check_cpl(v, up.sent[0], s, T.CplStatus.UR)


REGS = list(range(16)) + [16, 17, 18, 63, 64, 1023]


@contract('P13', cases=['endpoint', 'bridge'], covers=['m'])
def config_request_real(v, hdr):
    """the same with the real register file: a read request returns what the register reads, a write request has the
    effect of the register write and nothing else (arbitrary header state)"""
    from vc.contracts.c_config import function, rd, wr
    T = v.mod('core.tlp')
    f, _ = function(v, hdr)
    up = Sink()
    f.upstream_tx_handler = up
    u = v.mod('core.utils')
    f.pcie_id = mk_id(v, u, 'me')
    reg = v.choice('regno', REGS)
    want = rd(v, f, reg)
    t = single_dw(v, 'CFG_READ_0')
    t.address = reg * 4
    t.completer_id = u.PcieId(t.completer_id.bus, f.pcie_id.device, f.pcie_id.function)
    v.run(f.upstream_recv(t))
    v.cover('m')
    v.check('exactly one completion', len(up.sent) == 1)
    v.check_bytes('read data is the register value', up.sent[0].get_data(),
                  v.mk_bytes([want >> 8 * k & 0xff for k in range(4)]))


@contract('P13', cases=['twice', 'readwrite'], covers=['m'])
def config_sequence(v, kind):
    """two requests in a row (any two, any buses): each is answered on its own, in order, and the last captured bus
    number stands"""
    T = v.mod('core.tlp')
    f, up, down, log, val = target(v, 'Function')
    me = f.pcie_id
    u = v.mod('core.utils')
    ts = []
    for k in (0, 1):
        t = single_dw(v, 'CFG_WRITE_0' if kind == 'readwrite' and k else 'CFG_READ_0', 't%d' % k)
        t.completer_id = u.PcieId(t.completer_id.bus, me.device, me.function)
        ts.append(Snap(t))
        v.run(f.upstream_recv(t))
    v.cover('m')
    v.check('one completion each', len(up.sent) == 2)
    for c, s in zip(up.sent, ts):
        v.check('completion order', v.And(id_eq(v, c.requester_id, s.requester_id), v.eq(c.tag, s.tag)))
        v.check('completer bus is the captured one', v.eq(c.completer_id.bus, s.completer_id.bus))
    v.check('last bus number stands', v.eq(f.pcie_id.bus, ts[1].completer_id.bus))

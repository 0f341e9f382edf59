"""Outstanding requests (P20): tag allocation, completion routing and non-posted operations of functions and the root
complex.  The tag table is arbitrary (any set of active tags); waiting is modelled by arbitrary interference: whatever the
table holds when a waiter runs again is an arbitrary table, so one round of the retry loop stands for all of them."""
from vc.reg import contract, Thorough
from vc.contracts._common import Sink, Fc, req_tlp, mk_id
from vc.contracts.c_mem import root, Space
from vc.contracts._loops import locals_for
from vc.explore import NoSuchState


class Table:
    """arbitrary table of active tags (list of 256 bools); writes are logged"""
    def __init__(self, v, src, thr, n=256):
        self.v, self.src, self.thr, self.n = v, src, thr, n
        self.log = []
        self.floor = 0

    def old(self, i):
        return self.v.byte(self.src, i) < self.thr

    def __getitem__(self, i):
        v = self.v
        r = self.old(i)
        for k, x in self.log:
            r = v.ite(v.eq(k, i), x, r)
        return r

    def __setitem__(self, i, x):
        self.log.append((i, x))

    def __len__(self):
        return self.n


def requester(v, kind):
    if kind == 'function':
        f = v.mod('core.endpoint').Endpoint()
        out = Sink()
        f.upstream_tx_handler = out
    else:
        f, out = root(v, Space(v, 'mem'), Space(v, 'io'))
    return f, out


def table(v, f):
    """give f an arbitrary table of active tags; -> old(tag)"""
    if type(v.get(f, 'tag_active')) is not list or len(f.tag_active) != 256:
        raise NoSuchState('tag_active')
    thr = v.int('busy', 0, 256)
    if v.symbolic:
        src = v.bytes('active', v.int('active.size', 256, 257))
        t = Table(v, src, thr)
        v.put(f, 'tag_active', t)
        return t.old
    src = v.bytes('active', v.int('active.size', 256, 257))
    old = [b < thr for b in src[:256]]
    v.put(f, 'tag_active', list(old))
    return lambda i: old[i]


def limit(f, kind, ext, count):
    f.tag_count = count
    if kind == 'function':
        f.pcie_cap.extended_tag_field_enable = ext
        return min(256 if ext else 32, count)
    return min(256, count)


class Scan:
    """contract of the search loop: after k rounds the k tags after the starting one were all seen active (stated for an
    arbitrary tag q), and the loop's variable, if it has one, is the tag last looked at"""
    def __init__(self, v, module, n, cur, act, q):
        self.v, self.module, self.n, self.cur, self.act, self.q = v, module, n, cur, act, q
        self.j = None

    def attach(self, lc):
        if self.j is not None or lc.site[0] != self.module or lc.site[3] != 'for' or type(lc.seq) is not range \
                or len(lc.seq) != self.n:
            return None
        self.seq = lc.seq
        return self

    def known(self, j):
        v = self.v
        return v.Implies((self.q - self.cur - 1) % self.n < j, self.act(self.q))

    def head(self, lc, loc):
        v = self.v
        if lc.count == 1:
            self.j = v.havoc_int('j', 0, len(self.seq))
            v.assume(self.known(self.j))
            # a local that holds the starting tag before the loop holds the tag last looked at; others are set in each round
            self.last = [x for x in lc.site[4] if x in loc and loc[x] is self.cur]
            if len(self.last) > 1 or any(x in loc for x in lc.site[4] if x not in self.last):
                raise NoSuchState('search loop of alloc_tag')
            return locals_for(lc, {x: v.ite(v.eq(self.j, 0), self.cur, (self.cur + self.j) % self.n) for x in self.last})
        for x in self.last:
            v.aux('the tag looked at', v.eq(loc[x], (self.cur + self.j + 1) % self.n))
        v.aux('tags passed over are active', self.known(self.j + 1))
        v.stop()

    def next(self, lc):
        v = self.v
        from vc.load import STOP
        if self.j == len(self.seq):
            return STOP
        return self.seq.start + self.j * self.seq.step


KIND = [('function', False, 256), ('function', True, 256), ('function', True, 32), ('function', False, 20),
        ('function', True, 77), ('function', True, 1), ('function', False, 1), ('rc', False, 32), ('rc', False, 256),
        ('rc', False, 1), ('rc', False, 300), ('rc', False, 33)]
MODULE = {'function': 'cocotbext.pcie.core.function', 'rc': 'cocotbext.pcie.core.rc'}


@contract('P20', cases=KIND, covers=['got a tag', 'all busy'])
def alloc_any_state(v, case):
    """from any table and position: a free tag in range if there is one, otherwise waits; the table changes only there"""
    kind, ext, count = case
    f, out = requester(v, kind)
    n = limit(f, kind, ext, count)
    old = table(v, f)
    channels(v, f)
    cur = v.int('cur', 0, 255)
    v.put(f, 'current_tag', cur)
    q = v.int('q', 0, n - 1)
    other = v.int('other', 0, 255)
    if v.symbolic:
        v.loops = Scan(v, MODULE[kind], n, cur, old, q)
    sim = v.mod('cocotb').reset()
    t = sim.start(f.alloc_tag())
    sim.run_ready()
    if not t.done():
        v.cover('all busy')
        v.check('waits only if every tag of the range is in use', old(q))
        v.check('a waiting requester changes no tag', v.eq(f.tag_active[other], old(other)))
        # a release wakes it
        r = q
        f.release_tag(r)
        v.check('release frees the tag', v.Not(f.tag_active[r]))
        v.loops = None
        if v.symbolic:
            v.check('the waiter is woken by the release', bool(sim.ready))
            return
        sim.run_ready()
        v.check('the waiter gets the released tag', t.done() and t.result() == r)
        return
    v.cover('got a tag')
    tag = t.result()
    v.check('tag in the enabled range', v.And(tag >= 0, tag < n))
    v.check('tag was free', v.Not(old(tag)))
    v.check('tag is in use now', f.tag_active[tag])
    v.check('other tags keep their state', v.Implies(other != tag, v.eq(f.tag_active[other], old(other))))


@contract('P20', cases=[(k, n) for k in ('function', 'rc') for n in (1, 2, 3, 5)], covers=['waited', 'at once'],
          bounded='tag ranges of up to 5 tags, two requesters and two releases')
def alloc_history(v, case):
    """two requesters over any state of a small tag range: never the same tag; each release serves one waiter"""
    kind, n = case
    v.fork()
    f, out = requester(v, kind)
    f.tag_count = n
    act = [v.bool('a%d' % i) for i in range(n)]
    v.put(f, 'tag_active', act + [False] * (256 - n))
    v.put(f, 'current_tag', v.choice('cur', list(range(n))))
    sim = v.mod('cocotb').reset()
    ts = [sim.start(f.alloc_tag()), sim.start(f.alloc_tag())]
    sim.run_ready()
    free = [i for i in range(n) if not act[i]] if not v.symbolic else [i for i in range(n) if not bool(act[i])]
    held = [i for i in range(n) if i not in free]
    got = [t.result() for t in ts if t.done()]
    v.check('as many requests are served as tags are free', len(got) == min(2, len(free)))
    v.check('free tags are handed out, each once', len(set(got)) == len(got) and all(g in free for g in got))
    v.cover('at once' if got else 'waited')
    order = held + got
    while len(got) < 2 and order:
        r = order.pop(v.choice('rel%d' % len(order), list(range(len(order)))))
        f.release_tag(r)
        sim.run_ready()
        new = [t.result() for t in ts if t.done()]
        v.check('a release serves one waiter with the released tag', len(new) == len(got) + 1 and r in new)
        got = new
        v.cover('waited')
    v.check('the table shows exactly the tags in use', [bool(x) for x in f.tag_active] == [
        i in order + [g for g in got if g not in order] for i in range(256)])


class Queues:
    """arbitrary table indexed by tag; entries are created on demand by make()"""
    def __init__(self, v, make):
        self.v, self.make = v, make
        self.known = []

    def __getitem__(self, i):
        for k, q in self.known:
            if k is i or (k == i if isinstance(k, int) and isinstance(i, int) else bool(k == i)):
                return q
        q = self.make()
        self.known.append((i, q))
        return q

    def __len__(self):
        return 256


def channels(v, f):
    """rx_cpl_queues/rx_cpl_sync indexed by symbolic tags"""
    for n in ('rx_cpl_queues', 'rx_cpl_sync'):
        if type(v.get(f, n)) is not list or len(getattr(f, n)) != 256:
            raise NoSuchState(n)
    if v.symbolic:
        Q, Ev = type(f.rx_cpl_queues[0]), type(f.rx_cpl_sync[0])
        v.put(f, 'rx_cpl_queues', Queues(v, Q))
        v.put(f, 'rx_cpl_sync', Queues(v, Ev))


CPLS = ['CPL', 'CPL_DATA', 'CPL_LOCKED', 'CPL_LOCKED_DATA']


def completion(v, tname, prefix=''):
    T = v.mod('core.tlp')
    U = v.mod('core.utils')
    c = T.Tlp()
    c.fmt_type = getattr(T.TlpType, tname)
    c.requester_id = mk_id(v, U, prefix + 'rq')
    c.completer_id = mk_id(v, U, prefix + 'cp')
    st = v.choice(prefix + 'status', [T.CplStatus.SC, T.CplStatus.UR, T.CplStatus.CRS, T.CplStatus.CA])
    c.status = st
    c.tag = v.int(prefix + 'tag', 0, 1023)
    c.byte_count = v.int(prefix + 'byte_count', 1, 4096)
    c.lower_address = v.int(prefix + 'lower', 0, 127)
    if tname.endswith('DATA'):
        c.length = v.choice(prefix + 'len', [1, 2, 8])
        c.data = v.bytes(prefix + 'd', 4 * c.length)
    return c


@contract('P20', cases=[(k, c) for k in ('function', 'rc') for c in CPLS], covers=['expected', 'unexpected'])
def routing(v, case):
    """a completion goes to the queue of its own tag if that tag is in use, and is dropped (credits returned) otherwise"""
    kind, tname = case
    f, out = requester(v, kind)
    old = table(v, f)
    channels(v, f)
    c = completion(v, tname)
    fc = Fc(c)
    v.put(f, 'rx_tlp_handler', {})
    v.run(f.handle_tlp(c))
    live = c.tag < 256
    if live:
        live = bool(old(c.tag))
    else:
        live = False
    other = v.int('other', 0, 255)
    if live:
        v.cover('expected')
        q = f.rx_cpl_queues[c.tag]
        v.check('queued for its tag', q.qsize() == 1 and q.get_nowait() is c)
        v.check('its waiter is notified', f.rx_cpl_sync[c.tag].is_set())
        v.check('credits are held until it is consumed', fc.n == 0)
    else:
        v.cover('unexpected')
        v.check('credits of a dropped completion are returned', fc.n == 1)
    if not (live and (other == c.tag)):
        v.check('no other request sees it', f.rx_cpl_queues[other].empty())
    v.check('nothing is sent', not out.sent)
    v.check('the tag table is unchanged', v.eq(f.tag_active[other], old(other)))


@contract('P20', cases=[(k, w) for k in ('function', 'rc') for w in ('queued', 'later', 'timeout', 'in time')],
          covers=['m'])
def receive(v, case):
    """recv_cpl: oldest queued completion of the tag, else the next to arrive, else None at the timeout; returns credits"""
    kind, when = case
    v.cover('m')
    f, out = requester(v, kind)
    channels(v, f)
    tag = v.int('t', 0, 255)
    stale = v.bool('notified before')
    if bool(stale):
        f.rx_cpl_sync[tag].set()
    a, b = v.mod('core.tlp').Tlp(), v.mod('core.tlp').Tlp()
    fa, fb = Fc(a), Fc(b)
    sim = v.mod('cocotb').reset()
    q = f.rx_cpl_queues[tag]
    if when == 'queued':
        q.put_nowait(a)
        if bool(v.bool('two')):
            q.put_nowait(b)
    to = {'queued': v.choice('to', [0, 5]), 'later': 0}.get(when, 100)
    t = sim.start(f.recv_cpl(tag, to, 'ns'))
    sim.run_ready()
    if when == 'queued':
        v.check('a queued completion is returned at once', t.done() and t.result() is a)
        v.check('the others stay queued', q.empty() or q.get_nowait() is b)
        v.check('its credits are returned, once', fa.n == 1 and fb.n == 0)
        return
    v.check('waits while none is queued', not t.done())
    sim.run_for(99 * 10**6)
    v.check('does not give up before the timeout', not t.done())
    if when in ('later', 'in time'):
        if when == 'later':
            sim.run_for(10**9)
            v.check('waits without limit when no timeout is given', not t.done())
        q.put_nowait(a)
        f.rx_cpl_sync[tag].set()
        sim.run_ready()
        v.check('the arriving completion is returned', t.done() and t.result() is a)
        v.check('its credits are returned, once', fa.n == 1)
    else:
        sim.run_for(2 * 10**6)
        v.check('gives up at the timeout', t.done() and t.result() is None)


@contract('P20', cases=['function', 'rc'], covers=['m'])
def release(v, kind):
    """release_tag frees the tag, drops what is still queued for it returning the credits, and signals the waiters"""
    v.cover('m')
    f, out = requester(v, kind)
    old = table(v, f)
    channels(v, f)
    tag = v.int('t', 0, 255)
    v.assume(old(tag))
    n = v.choice('queued', [0, 1, 2, 3])
    fcs = []
    for i in range(n):
        c = v.mod('core.tlp').Tlp()
        fcs.append(Fc(c))
        f.rx_cpl_queues[tag].put_nowait(c)
    f.tag_release.clear()
    f.release_tag(tag)
    v.check('tag is free', v.Not(f.tag_active[tag]))
    v.check('left-over completions are dropped', f.rx_cpl_queues[tag].empty())
    v.check('their credits are returned once', all(c.n == 1 for c in fcs))
    v.check('waiters are signalled', f.tag_release.is_set())
    other = v.int('other', 0, 255)
    v.check('other tags keep their state', v.Implies(other != tag, v.eq(f.tag_active[other], old(other))))


class Prefix:
    """stands for any number of completions received so far, none of which ended the operation"""


class OpLoop:
    """contract of the receive loop: the list returned so far is exactly the completions received, in order"""
    def __init__(self, v, module):
        self.v, self.module, self.used = v, module, False

    def attach(self, lc):
        if self.used or lc.site[0] != self.module or lc.site[1].split('.')[-1] != 'perform_nonposted_operation':
            return None
        self.used = True
        return self

    def head(self, lc, loc):
        v = self.v
        ls = [x for x in loc.values() if type(x) is list]
        if len(ls) != 1:
            raise NoSuchState('list of completions')
        if lc.count == 1:
            v.aux('nothing received at entry', ls[0] == [])
            self.first = v.havoc_bool('first')
            if not bool(self.first):
                ls[0].append(self.prefix)
            self.list = ls[0]
            return None
        v.aux('same list', ls[0] is self.list)
        self.check(ls[0])
        v.stop()


REQS = ['MEM_READ', 'MEM_READ_64', 'IO_READ', 'IO_WRITE', 'CFG_READ_0', 'CFG_WRITE_0', 'CFG_READ_1', 'CFG_WRITE_1']


def ends(v, c, is_mem):
    """does this completion end an operation?  (specification)"""
    T = v.mod('core.tlp')
    if c.status != T.CplStatus.SC or not is_mem:
        return True
    if c.fmt_type in (T.TlpType.CPL, T.TlpType.CPL_LOCKED):
        return True
    # bytes in this completion: to the end of its last DW, from the offset of the lower address
    here = c.length * 4 - c.lower_address % 4
    return bool(c.byte_count <= here)


@contract('P20', cases=[(k, r) for k in ('function', 'rc') for r in REQS], covers=['ended', 'went on', 'timeout'])
def operation(v, case):
    """perform_nonposted_operation over the contracts of alloc_tag, send, recv_cpl and release_tag, for any number of
    completions (contract of its receive loop)"""
    kind, rname = case
    T = v.mod('core.tlp')
    f, out = requester(v, kind)
    events = []
    tag = v.int('t', 0, 255)
    is_mem = rname.startswith('MEM')
    to = v.choice('timeout', [0, 7])

    async def alloc():
        events.append('alloc')
        return tag

    def rel(t):
        events.append('release')
        v.check('its own tag is released', v.eq(t, tag))

    async def send(tlp):
        events.append('send')
        v.check('the request sent is the one given, with the allocated tag', tlp is req and v.truth(v.eq(tlp.tag, tag)))
    got = []

    async def recv(t, timeout=0, timeout_unit='ns'):
        v.check('listens for its own tag', v.eq(t, tag))
        v.check('the timeout is passed on', timeout == to and timeout_unit == 'us')
        k = len(got)
        if k > 6:
            v.assume(False)
        if v.bool('none%d' % k) if not v.symbolic else bool(v.bool('none%d' % k)):
            got.append(None)
            return None
        c = completion(v, v.choice('kind%d' % k, CPLS), 'c%d.' % k)
        got.append(c)
        return c
    for n, g in (('alloc_tag', alloc), ('release_tag', rel), ('send', send), ('recv_cpl', recv)):
        v.put(f, n, g)
    req = T.Tlp()
    req.fmt_type = getattr(T.TlpType, rname)
    pre = Prefix()
    if not is_mem:
        v.cover('went on')      # any completion ends these

    def preserved(ls):
        v.cover('went on')
        v.check('the operation goes on only after a completion that does not end it',
                len(got) == 1 and got[0] is not None and not ends(v, got[0], is_mem))
        v.check('received completions are kept in order', ls[-1:] == [got[0]] and ls[:-1] in ([], [pre]))
        v.check('the tag stays in use meanwhile', events == ['alloc', 'send'])
    if v.symbolic:
        lp = OpLoop(v, MODULE[kind])
        lp.prefix = pre
        lp.check = preserved
        v.loops = lp
    r = v.run(f.perform_nonposted_operation(req, to, 'us'))
    if v.symbolic:
        v.check('operation ended by a timeout or an ending completion',
                len(got) == 1 and (got[0] is None or ends(v, got[0], is_mem)))
        head = r[:1] if r[:1] == [pre] else []
        v.check('returns exactly the completions received',
                r == head + [c for c in got if c is not None])
    else:
        v.check('operation ended by a timeout or an ending completion', got[-1] is None or ends(v, got[-1], is_mem))
        v.check('no completion ended it before', all(not ends(v, c, is_mem) for c in got[:-1]))
        v.check('returns exactly the completions received', r == [c for c in got if c is not None])
        if len(got) > 1:
            v.cover('went on')
    v.cover('timeout' if got[-1] is None else 'ended')
    v.check('tag taken before sending, given back at the end, each once', events == ['alloc', 'send', 'release'])


@contract('P20', cases=[(k, w) for k in ('function', 'rc') for w in ('io', 'mem')], covers=['m'],
          bounded='two operations, up to two completions each, in every order')
def two_operations(v, case):
    """two concurrent operations on the real functions together: own completions only, whatever their order"""
    kind, what = case
    v.cover('m')
    T = v.mod('core.tlp')
    f, out = requester(v, kind)
    sim = v.mod('cocotb').reset()
    v.put(f, 'current_tag', v.choice('cur', [0, 5, 31, 255]))
    reqs = []
    for i in range(2):
        r = T.Tlp()
        r.fmt_type = T.TlpType.IO_READ if what == 'io' else T.TlpType.MEM_READ
        r.length = 1 if what == 'io' else 2
        r.first_be = 0xf
        r.last_be = 0 if what == 'io' else 0xf
        r.address = 64 * i
        reqs.append(r)
    ops = [sim.start(f.perform_nonposted_operation(r)) for r in reqs]
    sim.run_ready()
    v.check('both requests are sent', len(out.sent) == 2 and out.sent[0] is reqs[0] and out.sent[1] is reqs[1])
    tags = [r.tag for r in reqs]
    v.check('with different tags', tags[0] != tags[1])
    todo = [[], []]
    fcs = {}
    for i in range(2):
        for k in range(1 if what == 'io' else 2):
            c = T.Tlp()
            c.fmt_type = T.TlpType.CPL_DATA
            c.tag = tags[i]
            c.length = 1
            c.data = bytes(4)
            c.lower_address = 0
            c.byte_count = 4 if what == 'io' else 8 - 4 * k
            todo[i].append(c)
            fcs[id(c)] = Fc(c)
    exp = [list(todo[0]), list(todo[1])]
    n = 0
    while todo[0] or todo[1]:
        i = v.choice('which%d' % n, [0, 1]) if todo[0] and todo[1] else (0 if todo[0] else 1)
        n += 1
        v.run(f.handle_tlp(todo[i].pop(0)), fresh=False)
        if bool(v.bool('settle%d' % n)):
            sim.run_ready()
            v.check('an operation ends exactly when its last completion is there',
                    ops[0].done() == (not todo[0]) and ops[1].done() == (not todo[1]))
    sim.run_ready()
    for i in range(2):
        v.check('each operation returns its own completions in order', ops[i].done() and ops[i].result() == exp[i])
        v.check('its tag is free again', not f.tag_active[tags[i]])
    v.check('credits of all completions are returned once', all(x.n == 1 for x in fcs.values()))

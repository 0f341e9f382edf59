"""Path exploration, obligations, and the harness-facing API (symbolic side)."""
import hashlib
import json
import os
import random
import signal
import threading
import time
import traceback

import z3

from . import sym
from .sym import (SymInt, SymBool, SymBytes, Unsupported, PathEnd, SymBool_and, SymBool_not, SymBool_or,
                  bterm, mkbool, need, ite)


class Budget(BaseException):
    pass


class Discard(BaseException):
    """concrete run: assumption not met"""


class Decision:
    __slots__ = ('kind', 'val', 'more', 'excl')

    def __init__(self, kind, val, more, excl=None):
        self.kind, self.val, self.more, self.excl = kind, val, more, excl


class Failure:
    def __init__(self, label, reason, inputs, detail='', cut=False):
        self.label, self.reason, self.inputs, self.detail, self.cut = label, reason, inputs, detail, cut

    def to_json(self):
        return dict(label=self.label, reason=self.reason, inputs=self.inputs, detail=self.detail, cut=self.cut)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.by_label = {}
        self.failures = []
        self.covers = set()
        self.unsupported = []
        self.solver_time = 0.0
        self.queries = 0
        self.linear = 0             # answered in the linear view
        self.wall = 0.0
        self.unknown = 0
        self.funcs = set()
        self.notes = set()
        self.samples = []
        self.second = {}
        self.truncated = False


class Engine:
    def __init__(self, name, world, timeout_ms=60000, wall_limit=None, max_paths=200000, backend2=False,
                 sample_models=0, seed=1, path_cpu=120):
        self.res = Result(name)
        self.world = world
        self.trace = []
        self.stack = []          # terms pushed on the solver
        self.timeout_ms = timeout_ms
        self.wall_limit = wall_limit
        self.path_cpu = path_cpu
        self.max_paths = max_paths
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', timeout_ms)
        self.backend2 = backend2
        self.sample_models = sample_models
        self.proved = set()
        self.seed = seed
        self.last_model = None
        self.qmodel = None
        sym.L.reset()
        self.view = sym.L.View() if os.environ.get('VC_LIN', '1') == '1' else None
        self.merge = False       # and, or, not, chained comparisons and tuple equality: one condition instead of forks
        self.fork = False        # conditionals, min, max: fork instead of an if-then-else term
        self.start = time.time()

    # ---- solver plumbing
    def sync(self):
        pc = self.pc
        st = self.stack
        k = 0
        n = min(len(pc), len(st))
        while k < n and st[k] is pc[k] or k < n and st[k].eq(pc[k]):
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for t in pc[k:]:
            self.solver.push()
            self.solver.add(t)
            st.append(t)

    def query(self, *extra):
        """-> 'sat' / 'unsat' / 'unknown'; model left in self.qmodel"""
        if extra and self.view is not None and self.view.useful():
            t0 = time.time()
            r = self.view.refutes(self.pc, *extra)
            dt = time.time() - t0
            self.view.time += dt
            if not r:
                self.view.lost += dt
            self.res.solver_time += dt
            if r:
                self.qmodel = None
                self.res.queries += 1
                self.res.linear += 1
                if self.wall_limit and time.time() - self.start > self.wall_limit:
                    raise Budget()
                return 'unsat'
        self.sync()
        t0 = time.time()
        self.res.queries += 1
        self.qmodel = None
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            self.qmodel = self.solver.model()
        if extra:
            self.solver.pop()
        dt = time.time() - t0
        self.res.solver_time += dt
        if self.wall_limit and time.time() - self.start > self.wall_limit:
            raise Budget()
        if r == z3.unknown:
            # retry from scratch with the default tactic
            t0 = time.time()
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
            s.set('timeout', self.timeout_ms)
            for t in self.pc:
                s.add(t)
            for e in extra:
                s.add(e)
            r = s.check()
            if r == z3.sat:
                self.qmodel = s.model()
            self.res.solver_time += time.time() - t0
        return 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'

    def _model_says(self, t):
        m = self.last_model
        if m is None:
            return None
        v = m.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.pos
        self.pos += 1
        if k < len(self.trace):
            d = self.trace[k]
            if d.kind not in 'bf':
                raise RuntimeError("non-deterministic harness re-execution")
            if d.kind == 'b':
                self.pc.append(t if d.val else z3.Not(t))
            return d.val
        hint = self._model_says(t)
        nt = z3.Not(t)
        if hint is True:
            ft = 'sat'
            mt = self.last_model
            ff = self.query(nt)
            mf = self.qmodel
        elif hint is False:
            ff = 'sat'
            mf = self.last_model
            ft = self.query(t)
            mt = self.qmodel
        else:
            ft = self.query(t)
            mt = self.qmodel
            ff = self.query(nt)
            mf = self.qmodel
        if ft == 'unsat' and ff == 'unsat':
            raise PathEnd()
        if ft == 'unsat':
            self.trace.append(Decision('f', False, False))
            return False
        if ff == 'unsat':
            self.trace.append(Decision('f', True, False))
            return True
        self.trace.append(Decision('b', True, True))
        self.pc.append(t)
        self.last_model = mt
        return True

    def concretize(self, x):
        k = self.pos
        self.pos += 1
        if k < len(self.trace):
            d = self.trace[k]
            if d.kind != 'c':
                raise RuntimeError("non-deterministic harness re-execution")
            if d.val is None:
                d.val = self._new_value(x, d.excl)
                if d.val is None:
                    d.more = False
                    raise PathEnd()
        else:
            v = self._new_value(x, [])
            if v is None:
                raise PathEnd()
            d = Decision('c', v, True, [])
            self.trace.append(d)
        self.pc.append(bterm(x == d.val))
        return d.val

    def _new_value(self, x, excl):
        if len(excl) > 400:
            raise Unsupported("too many values to enumerate for a symbolic index")
        ex = [bterm(SymBool_not(x == e)) for e in excl]
        r = self.query(*ex)
        if r == 'unsat':
            return None
        if r == 'unknown':
            raise Unsupported("solver gave up while enumerating")
        self.last_model = self.qmodel
        return self.qmodel.eval(x.t, model_completion=True).as_signed_long()

    def choice(self, n):
        """non-deterministic choice 0..n-1 (all explored)"""
        k = self.pos
        self.pos += 1
        if k < len(self.trace):
            return self.trace[k].val
        self.trace.append(Decision('n', 0, n > 1, n))
        return 0

    def backtrack(self):
        while self.trace:
            d = self.trace[-1]
            if d.kind == 'b' and d.more:
                d.val, d.more = False, False
                return True
            if d.kind == 'n' and d.val + 1 < d.excl:
                d.val += 1
                return True
            if d.kind == 'c' and d.more and d.val is not None:
                d.excl.append(d.val)
                d.val = None
                return True
            self.trace.pop()
        return False

    # ---- running
    def run(self, fn, make_v, quiet=True):
        res = self.res
        sym.ENG = self
        t0 = time.time()
        try:
            while True:
                if res.paths >= self.max_paths or (self.wall_limit and time.time() - self.start > self.wall_limit):
                    res.truncated = True
                    break
                self.pos = 0
                self.pc = []
                self.last_model = None
                v = make_v(self)
                self.v = v
                arm(self.path_cpu)
                try:
                    fn(v)
                    v._finish()
                    arm(0)
                except PathEnd:
                    pass
                except Unsupported as e:
                    res.unsupported.append('%s [%s]' % (e, where(e)))
                    if len(res.unsupported) > 20:
                        break
                except Budget:
                    arm(0)
                    res.truncated = True
                    break
                except Exception as e:          # noqa: an unexpected exception is a refuted obligation
                    if isinstance(e, (MemoryError, z3.Z3Exception)):
                        res.unsupported.append('engine: %s %s [%s]' % (type(e).__name__, e, where(e)))
                        res.truncated = True
                        break
                    if interface_gone(e):
                        res.unsupported.append('contract does not apply: %s: %s [%s]' % (type(e).__name__, e, where(e)))
                    elif v._tolerate(e):
                        pass
                    else:
                        try:
                            v._crash(e)
                        except PathEnd:
                            pass
                finally:
                    arm(0)
                    v._teardown()
                res.paths += 1
                if len(res.failures) > 40:
                    break
                if not self.backtrack():
                    break
        except Budget:
            res.truncated = True
        finally:
            sym.ENG = None
        res.wall = time.time() - t0
        return res


def _out_of_time(sig, frame):
    raise Budget()


def arm(seconds):
    """end the path (or the concrete run) after this much CPU time: code that loops without reaching a decision would otherwise
    never return.  Repeats, since an exception raised inside a destructor is lost."""
    if threading.current_thread() is threading.main_thread():
        if seconds:
            signal.signal(signal.SIGPROF, _out_of_time)
        signal.setitimer(signal.ITIMER_PROF, seconds, 2 if seconds else 0)


def interface_gone(e):
    """the contract itself (not the code under contract) reached for a name or signature that is not there any more:
    the contract does not apply to this tree; never a verdict"""
    if isinstance(e, NoSuchState):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or '/vc/contracts/' not in tb.tb_frame.f_code.co_filename:
        return False
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        return getattr(e, 'obj', None) is not None
    return isinstance(e, TypeError) and 'argument' in str(e)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for f in tb[::-1]:
        if '/vc/sym.py' in f.filename or '/vc/explore.py' in f.filename:
            continue
        out.append('%s:%s' % (os.path.basename(f.filename), f.lineno))
        if len(out) >= 3:
            break
    return ' < '.join(out)


class NoSuchState(Exception):
    pass


class ByteSource:
    """array of bytes read through indices; consistency of equal indices is assumed (Ackermann)"""

    def __init__(self, v, name, readonly=True):
        self.v, self.name = v, name
        self.reads = []

    def read(self, i):
        v = self.v
        if isinstance(i, int):
            for j, val in self.reads:
                if isinstance(j, int) and j == i:
                    return val
        else:
            for j, val in self.reads:
                if not isinstance(j, int) and ((i == j) is True):
                    return val
        val = v._fresh_int('%s[%d]' % (self.name, len(self.reads)), 0, 255)
        for j, w in self.reads:
            e = i == j
            if e is False:
                continue
            if e is True:
                continue
            v.eng.pc.append(z3.Implies(bterm(e), bterm(val == w)))
        self.reads.append((i, val))
        return val


class V:
    """the harness-facing object, symbolic mode"""
    symbolic = True

    def __init__(self, eng, opts=None):
        self.eng = eng
        self.world = eng.world
        self.names = {}
        self.inputs = {}       # name -> ('int', SymInt) | ('bool', SymBool) | ('bytes', len, ByteSource) | ('choice', k)
        self.undo = []
        self.opts = opts or {}
        self.ok_exc = ()
        self.loops = None
        self.softs = []
        self.active_labels = []
        self._cutmark = False

    # ---- module access
    def mod(self, name):
        return self.world.mod(name)

    def merge(self):
        """symbolic conditions are combined"""
        self.eng.merge = True

    def fork(self):
        """conditionals, min() and max() split into cases"""
        self.eng.fork = True

    def fix(self, x):
        """case split on the value of x"""
        return self.eng.concretize(x) if isinstance(x, SymInt) else x

    # ---- naming
    def _uname(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _fresh_int(self, name, lo, hi):
        name = self._uname(name)
        if lo == hi:
            return lo
        if lo >= 0:
            w = hi.bit_length()
            t = z3.BitVec(name, w)
            if hi == (1 << w) - 1 and lo == 0:
                return SymInt(z3.ZeroExt(1, t), lo, hi)
            x = SymInt(z3.ZeroExt(1, t), 0, (1 << w) - 1)
        else:
            w = need(lo, hi)
            x = SymInt(z3.BitVec(name, w), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if lo > x.lo:
            self.eng.pc.append(bterm(x >= lo))
        if hi < x.hi:
            self.eng.pc.append(bterm(x <= hi))
        return SymInt(x.t, lo, hi)

    # ---- inputs
    def int(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError('input %s used twice' % name)
        x = self._fresh_int(name, lo, hi)
        self.inputs[name] = ('int', x)
        return x

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        if name in self.inputs:
            raise RuntimeError('input %s used twice' % name)
        x = mkbool(z3.Bool(self._uname(name)))
        self.inputs[name] = ('bool', x)
        return x

    def choice(self, name, options):
        options = list(options)
        k = self.eng.choice(len(options))
        self.inputs[name] = ('choice', k)
        return options[k]

    def bytes(self, name, n, mutable=False):
        """n concrete -> list of fresh bytes, n symbolic -> unbounded source"""
        if isinstance(n, int):
            items = [self._fresh_int('%s[%d]' % (name, i), 0, 255) for i in range(n)]
            self.inputs[name] = ('items', items)
            return SymBytes(items, mutable=mutable)
        src = ByteSource(self, self._uname(name))
        self.inputs[name] = ('bytes', n, src)
        return SymBytes(None, n, src.read, mutable=mutable)

    def havoc_int(self, name, lo, hi):
        """internal (not an input): arbitrary value, e.g. a havocked loop variable"""
        self._cutmark = True
        return self._fresh_int('~' + name, lo, hi)

    def havoc_bool(self, name):
        self._cutmark = True
        return mkbool(z3.Bool(self._uname('~' + name)))

    # ---- logic
    def assume(self, c):
        if isinstance(c, (SymBool, SymInt)):
            t = bterm(c)
            self.eng.pc.append(t)
            self._feasible()
        elif not c:
            raise PathEnd()

    def _feasible(self):
        e = self.eng
        k = e.pos
        e.pos += 1
        if k < len(e.trace):
            return
        if e.last_model is not None and e._model_says(e.pc[-1]):
            pass
        else:
            if e.query() == 'unsat':
                # record as a dead end
                raise PathEnd()
            e.last_model = e.qmodel
        e.trace.append(Decision('f', True, False))

    def check(self, label, c, detail=''):
        """proof obligation: c holds on this path"""
        e = self.eng
        res = e.res
        sym_c = isinstance(c, (SymBool, SymInt))
        t = bterm(c) if sym_c else None
        k = e.pos
        e.pos += 1
        if k < len(e.trace):            # replayed prefix: already decided
            if sym_c:
                e.pc.append(t)
            elif not c:
                raise PathEnd()
            return True
        res.obligations += 1
        bl = res.by_label.setdefault(label, [0, 0])
        bl[0] += 1
        if not sym_c:
            e.trace.append(Decision('f', True, False))
            if c:
                res.discharged += 1
                res.trivial += 1
                bl[1] += 1
                return True
            if e.query() == 'unsat':
                res.discharged += 1
                bl[1] += 1
                raise PathEnd()
            self._fail(label, 'refuted', detail)
            raise PathEnd()
        nt = z3.Not(t)
        r = e.query(nt)
        e.trace.append(Decision('f', True, False))
        if r == 'unsat':
            res.discharged += 1
            bl[1] += 1
            e.proved.add(label)
            if e.backend2:
                self._second(label, nt)
            e.pc.append(t)
            return True
        if r == 'sat':
            self._fail(label, 'refuted', detail, e.qmodel, nt)
        else:
            res.unknown += 1
            self._fail(label, 'unknown', detail)
        e.last_model = None
        e.pc.append(t)
        if e.query() == 'unsat':
            raise PathEnd()
        return False

    def _second(self, label, nt):
        """re-discharge with the second back end (cvc5)"""
        from . import second
        r = second.check(self.eng.pc + [nt])
        d = self.eng.res.second
        d[r] = d.get(r, 0) + 1
        if r == 'sat':
            self._fail(label, 'back ends disagree (cvc5: sat)', '')

    def _fail(self, label, reason, detail='', model=None, extra=None):
        if model is None and reason != 'unknown':
            if self.eng.query(*([extra] if extra is not None else [])) == 'sat':
                model = self.eng.qmodel
        if model is not None:
            # look for a small witness
            hard = [extra] if extra is not None else []
            for s in self.softs:
                if self.eng.query(*(hard + [s])) == 'sat':
                    hard.append(s)
                    model = self.eng.qmodel
        self.eng.res.failures.append(Failure(label, reason, self.model_inputs(model) if model is not None else None,
                                             detail, self._cutmark))

    def soft(self, c):
        """prefer counterexamples satisfying c"""
        if isinstance(c, (SymBool, SymInt)):
            self.softs.append(bterm(c))

    def _crash(self, e):
        msg = 'unexpected %s: %s' % (type(e).__name__, str(e)[:200])
        lab = 'no-unexpected-exception'
        res = self.eng.res
        if self.eng.query() == 'unsat':
            return
        res.obligations += 1
        res.by_label.setdefault(lab, [0, 0])[0] += 1
        self._fail(lab, 'refuted', '%s at %s' % (msg, where(e)))

    def _tolerate(self, e):
        return isinstance(e, self.ok_exc)

    def _finish(self):
        if self.eng.sample_models and len(self.eng.res.samples) < self.eng.sample_models and not self._cutmark:
            if self.eng.query() == 'sat':
                self.eng.res.samples.append(self.model_inputs(self.eng.qmodel))

    def _teardown(self):
        for f in reversed(self.undo):
            f()
        self.undo = []

    def model_inputs(self, m):
        out = {}
        for name, d in self.inputs.items():
            if d[0] == 'int':
                x = d[1]
                out[name] = mval(m, x)
            elif d[0] == 'bool':
                x = d[1]
                out[name] = mbool(m, x)
            elif d[0] == 'choice':
                out[name] = d[1]
            elif d[0] == 'items':
                out[name] = {'items': [mval(m, x) for x in d[1]]}
            elif d[0] == 'bytes':
                n = mval(m, d[1])
                out[name] = {'len': n, 'at': {str(mval(m, i)): mval(m, x) for i, x in d[2].reads}}
        return out

    def cover(self, label):
        self.eng.res.covers.add(label)

    # ---- helpers shared with the concrete mode
    def And(self, *a):
        return SymBool_and(*a)

    def Or(self, *a):
        return SymBool_or(*a)

    def Not(self, a):
        return SymBool_not(a)

    def Implies(self, a, b):
        return SymBool_or(SymBool_not(a), b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        return True if a is b else a == b

    def eq_lin(self, a, b):
        """a == b, decided by GF(2) normal form where possible"""
        from . import gf2
        x, y = sym.as_sym(a), sym.as_sym(b)
        w = max(x.t.size(), y.t.size())
        if gf2.same(sym.resize(x.t, w), sym.resize(y.t, w)):
            return True
        return a == b

    def min(self, a, b):
        return sym.sym_min(a, b)

    def max(self, a, b):
        return sym.sym_max(a, b)

    def valid(self, c):
        """c holds on every execution of this path (no fork)"""
        if isinstance(c, bool):
            return c
        return self.eng.query(bterm(self.Not(c))) == 'unsat'

    def truth(self, x):
        """bool(x) without forking"""
        if isinstance(x, SymInt):
            return x != 0
        if isinstance(x, SymBool):
            return x
        return bool(x)

    def len(self, x):
        return x.sym_len() if isinstance(x, SymBytes) else len(x)

    def mk_bytes(self, items, mutable=False):
        return SymBytes(list(items), mutable=mutable)

    def byte(self, b, i):
        """byte of a bytes object at an index known to be in range"""
        return SymBytes.lift(b).get(i)

    def idx(self, name, n):
        """an arbitrary index 0 <= i < n (the path ends if n == 0): universally quantified probe"""
        self.assume(n > 0)
        if isinstance(n, int):
            return self.int(name, 0, n - 1)
        i = self.int(name, 0, max(n.hi - 1, 0))
        self.assume(i < n)
        return i

    def check_bytes(self, label, a, b, detail=''):
        """a and b are the same byte string (for every index)"""
        a, b = SymBytes.lift(a), SymBytes.lift(b)
        la, lb = a.sym_len(), b.sym_len()
        self.check(label + ': length', la == lb, detail)
        if isinstance(la, int) and isinstance(lb, int) and a.items is not None and b.items is not None:
            if la == lb:
                self.check(label + ': content', SymBool_and(*[x == y for x, y in zip(a.items, b.items)]), detail)
            return
        i = self._fresh_int('~i', 0, max((la.hi if isinstance(la, SymInt) else la) - 1, 0))
        self.check(label + ': content', SymBool_or(SymBool_not(i < la), a.get(i) == b.get(i)), detail)

    def patch(self, obj, name, val):
        d = obj.__dict__ if hasattr(obj, '__dict__') else {}
        had = name in d
        old = d.get(name)
        setattr(obj, name, val)

        def undo():
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.undo.append(undo)

    def put(self, obj, name, val):
        """set part of the representation the contract is stated over; a name that is not there makes the contract
        inapplicable"""
        if not hasattr(obj, name):
            raise NoSuchState('%s.%s' % (type(obj).__name__, name))
        self.patch(obj, name, val)

    def get(self, obj, name):
        if not hasattr(obj, name):
            raise NoSuchState('%s.%s' % (type(obj).__name__, name))
        return getattr(obj, name)

    def hi(self, x):
        """an upper bound of x"""
        return x.hi if isinstance(x, SymInt) else x

    def stop(self):
        """end of the path (the rest is covered by another one: loop contracts)"""
        raise PathEnd()

    def aux(self, label, c):
        """auxiliary obligation (a loop invariant): if it fails the argument does not apply to this code; no verdict"""
        return self.check('~' + label, c)

    def raises(self, fn, *args, **kw):
        """run fn; returns (value, None) or (None, exception)"""
        try:
            return fn(*args, **kw), None
        except Exception as e:
            return None, e

    def run(self, coro, **kw):
        return self.mod('cocotb').run(coro, **kw)

    def covers_fn(self, *names):
        self.eng.res.funcs.update(names)

    def note(self, s):
        self.eng.res.notes.add(s)

    def opts_thorough(self):
        return self.opts.get('tier') == 'thorough'


def mval(m, x):
    if isinstance(x, SymInt):
        return m.eval(x.t, model_completion=True).as_signed_long()
    if isinstance(x, SymBool):
        return mbool(m, x)
    return x


def mbool(m, x):
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    return bool(x)


class CBytes(bytes):
    pass


class ConcV:
    """the same API on plain Python values: counterexample replay, cross-check and random falsification"""
    symbolic = False

    def __init__(self, world, inputs=None, rng=None):
        self.world = world
        self.given = inputs
        self.rng = rng
        self.used = {}
        self.failures = []
        self.covers = set()
        self.undo = []
        self.ok_exc = ()
        self.loops = None
        self.checks = 0

    def mod(self, name):
        return self.world.mod(name)

    def _get(self, name, gen):
        if name in self.used:
            raise RuntimeError('input %s used twice' % name)
        if self.given is not None and name in self.given:
            x = self.given[name]
        elif self.rng is not None:
            x = gen()
        else:
            x = gen()
        self.used[name] = x
        return x

    def int(self, name, lo, hi):
        return self._get(name, lambda: rand_int(self.rng, lo, hi))

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5 if self.rng else False)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, lambda: self.rng.randrange(len(options)) if self.rng else 0)]

    def bytes(self, name, n, mutable=False):
        def gen():
            if self.rng:
                return {'items': list(self.rng.randbytes(n))}
            return {'items': [0] * n}
        d = self._get(name, gen)
        if 'items' in d:
            b = bytes(d['items'])
        else:
            if n > 1 << 22:
                raise Discard()
            b = bytearray((i * 7 + 3) & 0xff for i in range(n))
            for k, x in d['at'].items():
                if 0 <= int(k) < n:
                    b[int(k)] = x
            b = bytes(b)
        return bytearray(b) if mutable else b

    def merge(self):
        pass

    def fork(self):
        pass

    def fix(self, x):
        return x

    def havoc_int(self, name, lo, hi):
        raise RuntimeError("havoc in concrete mode")

    havoc_bool = havoc_int

    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, label, c, detail=''):
        self.checks += 1
        if not c:
            self.failures.append((label, detail))
        return bool(c)

    def aux(self, label, c):
        return True

    def soft(self, c):
        pass

    def cover(self, label):
        self.covers.add(label)

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    eq_lin = eq

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def truth(self, x):
        return bool(x)

    def len(self, x):
        return len(x)

    def byte(self, b, i):
        return b[i]

    def mk_bytes(self, items, mutable=False):
        return bytearray(items) if mutable else bytes(items)

    def idx(self, name, n):
        self.assume(n > 0)
        i = self._get(name, lambda: self.rng.randrange(n) if self.rng else 0)
        self.assume(i < n)
        return i

    def check_bytes(self, label, a, b, detail=''):
        self.check(label + ': length', len(a) == len(b), detail)
        self.check(label + ': content', bytes(a) == bytes(b), detail)

    patch = V.patch
    put = V.put
    get = V.get

    raises = V.raises
    run = V.run

    tier = 'quick'

    def opts_thorough(self):
        return self.tier == 'thorough'

    def covers_fn(self, *names):
        pass

    def note(self, s):
        pass


def rand_int(rng, lo, hi):
    if rng is None:
        return lo
    r = rng.random()
    if hi - lo <= 8:
        return rng.randint(lo, hi)
    if r < 0.15:
        return rng.choice([lo, hi, lo + 1, hi - 1])
    if r < 0.45:
        k = rng.randrange((hi - lo).bit_length())
        x = lo + (1 << k) + rng.randint(-4, 4)
        return min(max(x, lo), hi)
    if r < 0.65:
        return min(hi, lo + rng.randint(0, 64))
    if r < 0.75:
        k = rng.randrange((hi - lo).bit_length())
        return lo + (rng.randint(0, hi - lo) >> k)
    return rng.randint(lo, hi)


def run_concrete(world, fn, inputs=None, rng=None, tier='quick'):
    """-> ConcV with .failures filled; raises Discard if assumptions are not met"""
    v = ConcV(world, inputs, rng)
    v.tier = tier
    try:
        arm(20 if tier == 'quick' else 120)
        try:
            fn(v)
        finally:
            arm(0)
    except Budget:
        raise Discard()
    except Discard:
        raise
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        if interface_gone(e) or isinstance(e, MemoryError):
            raise Discard()
        if not isinstance(e, v.ok_exc):
            v.failures.append(('no-unexpected-exception', 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:200],
                                                                                        where(e))))
    finally:
        for f in reversed(v.undo):
            f()
        v.undo = []
    return v

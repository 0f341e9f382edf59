"""Worlds: the real modules of /repo, loaded from its current working tree on every run.

The symbolic world compiles each module's own source after a mechanical,
semantics-preserving instrumentation (see Instr); the concrete world compiles
it unchanged.  In both, cocotb is replaced by the small stand-in in stubs/.
"""
import ast
import builtins
import copy
import enum
import importlib.abc
import importlib.machinery
import os
import struct as real_struct
import sys
import types

from . import sym
from .sym import SymInt, SymBool, SymBytes, Unsupported, SymBool_or, SymBool_and, ite, as_sym

REPO = os.environ.get('VC_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')

# ------------------------------------------------------------- shims

_real = {n: getattr(builtins, n) for n in ('len', 'range', 'int', 'bool', 'min', 'max', 'bytes', 'bytearray', 'print',
                                           'list', 'sum', 'any', 'all', 'abs', 'isinstance', 'sorted', 'enumerate')}


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, n):
        return getattr(int, n)


class s_int(metaclass=_IntMeta):
    def __new__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) is SymBool:
                return x.to_int()
            f = getattr(type(x), '__int__', None)
            if f is not None and not isinstance(x, (int, float)):
                return f(x)
        return int(*a, **kw)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if not isinstance(b, SymBytes):
            b = SymBytes.lift(b)
        n = len(b)
        items = [b.get(i) for i in range(n)]
        if byteorder == 'big':
            items.reverse()
        r = 0
        for k, x in enumerate(items):
            r = r | (x << (8 * k))
        if signed and n:
            r = ite(r >= (1 << (8 * n - 1)), r - (1 << (8 * n)), r)
        return r


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class s_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if type(x) is SymInt:
            return x != 0
        if type(x) is SymBool:
            return x
        if type(x) is SymBytes:
            return x.sym_len() != 0
        return bool(x)


def _mk_bytes(real, mutable):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or isinstance(x, SymBytes) and x.mutable == mutable

        def __getattr__(cls, n):
            return getattr(real, n)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

    class s_bytes(metaclass=Meta):
        def __new__(cls, *a, **kw):
            if len(a) >= 1 and not kw:
                x = a[0]
                if type(x) is SymBytes:
                    r = x.snap()
                    r.mutable = mutable
                    return r
                if type(x) is SymInt:
                    if not (x >= 0):
                        raise ValueError("negative count")
                    return SymBytes(None, x, lambda i: 0, mutable=mutable)
                if isinstance(x, (list, tuple)) and any(isinstance(i, (SymInt, SymBool)) for i in x):
                    for i in x:
                        if not sym.SymBool_and(i >= 0, i <= 255):
                            raise ValueError("bytes must be in range(0, 256)")
                    return SymBytes(list(x), mutable=mutable)
                if hasattr(type(x), '__bytes__') and not isinstance(x, (bytes, bytearray)):
                    r = x.__bytes__()
                    if isinstance(r, SymBytes):
                        r = r.snap()
                        r.mutable = mutable
                        return r
                    x = r
                    a = (x,)
                if mutable:
                    # a mutable buffer may receive symbolic bytes later
                    return SymBytes(list(real(*a)), mutable=True)
                return real(*a)
            r = real(*a, **kw)
            if mutable:
                return SymBytes(list(r), mutable=True)
            return r
    s_bytes.__name__ = real.__name__
    return s_bytes


s_bytes = _mk_bytes(bytes, False)
s_bytearray = _mk_bytes(bytearray, True)


def s_len(x):
    if type(x) is SymBytes:
        return x.sym_len()
    f = getattr(type(x), '__symlen__', None)
    if f is not None:
        return f(x)
    return len(x)


class SymRange:
    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __iter__(self):
        i = self.start
        if isinstance(self.step, SymInt):
            raise Unsupported("range step")
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def __symlen__(self):
        if self.step != 1:
            raise Unsupported("len(range)")
        return sym.sym_max(self.stop - self.start, 0)


def s_range(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def s_print(*a, **k):
    pass


def s_abs(x):
    return abs(x)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


SHIMS = dict(len=s_len, range=s_range, int=s_int, bool=s_bool, min=sym.sym_min, max=sym.sym_max, bytes=s_bytes,
             bytearray=s_bytearray, print=s_print, sum=s_sum)


class StructShim:
    error = real_struct.error

    def __init__(self):
        self._c = {}

    def _parse(self, fmt):
        r = self._c.get(fmt)
        if r is None:
            end = 'little'
            f = fmt
            if f[0] in '<>!=@':
                end = 'big' if f[0] in '>!' else 'little'
                f = f[1:]
            codes = []
            n = ''
            for ch in f:
                if ch.isdigit():
                    n += ch
                    continue
                if ch in 'x ':
                    if ch == 'x':
                        codes += ['x'] * (int(n) if n else 1)
                    n = ''
                    continue
                if ch not in 'BbHhLlIiQq':
                    raise Unsupported("struct format %r" % fmt)
                codes += [ch] * (int(n) if n else 1)
                n = ''
            r = self._c[fmt] = (end, codes)
        return r

    SZ = dict(B=1, b=1, H=2, h=2, L=4, l=4, I=4, i=4, Q=8, q=8, x=1)

    def calcsize(self, fmt):
        return real_struct.calcsize(fmt)

    def pack(self, fmt, *vals):
        if not any(isinstance(x, (SymInt, SymBool)) for x in vals):
            return real_struct.pack(fmt, *vals)
        end, codes = self._parse(fmt)
        if len([c for c in codes if c != 'x']) != len(vals):
            raise real_struct.error("pack expected %d items" % len(codes))
        items = []
        vals = list(vals)
        for c in codes:
            if c == 'x':
                items.append(0)
                continue
            x = as_sym(vals.pop(0))
            if x is None:
                raise real_struct.error("required argument is not an integer")
            n = self.SZ[c]
            lo, hi = (0, (1 << 8 * n) - 1) if c.isupper() else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
            if not sym.SymBool_and(x >= lo, x <= hi):
                raise real_struct.error("argument out of range")
            b = [(x >> (8 * k)) & 0xff for k in range(n)]
            if end == 'big':
                b.reverse()
            items += b
        return SymBytes(items)

    def unpack_from(self, fmt, buf, offset=0):
        if not isinstance(buf, SymBytes) and not isinstance(offset, SymInt):
            return real_struct.unpack_from(fmt, buf, offset)
        buf = SymBytes.lift(buf)
        end, codes = self._parse(fmt)
        size = sum(self.SZ[c] for c in codes)
        if not (s_len(buf) >= offset + size):
            raise real_struct.error("unpack_from requires a buffer of at least %d bytes" % size)
        out = []
        p = offset
        for c in codes:
            n = self.SZ[c]
            b = [buf.get(p + k) for k in range(n)]
            p = p + n
            if c == 'x':
                continue
            if end == 'big':
                b.reverse()
            r = 0
            for k, x in enumerate(b):
                r = r | (x << (8 * k))
            if c.islower():
                r = ite(r >= (1 << 8 * n - 1), r - (1 << 8 * n), r)
            out.append(r)
        return tuple(out)

    def unpack(self, fmt, buf):
        if not isinstance(buf, SymBytes):
            return real_struct.unpack(fmt, buf)
        end, codes = self._parse(fmt)
        size = sum(self.SZ[c] for c in codes)
        if not (buf.sym_len() == size):
            raise real_struct.error("unpack requires a buffer of %d bytes" % size)
        return self.unpack_from(fmt, buf, 0)

    def pack_into(self, fmt, buf, offset, *vals):
        b = self.pack(fmt, *vals)
        buf[offset:offset + len(b)] = b


class NullLogger:
    name = 'null'
    level = 0
    handlers = ()

    def _nop(self, *a, **k):
        pass

    debug = info = warning = error = critical = exception = log = setLevel = addHandler = _nop

    def isEnabledFor(self, *a):
        return False

    def getEffectiveLevel(self):
        return 100


class LoggingShim:
    DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50

    def getLogger(self, *a):
        return NullLogger()

    class LoggerAdapter(NullLogger):
        pass


# ------------------------------------------------------------- enum on symbolic values

_orig_enum_call = enum.EnumType.__call__


def _enum_call(cls, value, *args, **kw):
    if not args and not kw:
        if isinstance(value, (SymInt, SymBool)):
            value = as_sym(value)
            if issubclass(cls, enum.IntFlag):
                mask = 0
                for m in cls:
                    mask |= m._value_
                if value.lo >= 0 and value.hi <= mask and (mask & (mask + 1)) == 0:
                    return value
                if (value & ~mask) == 0:
                    return value
                return value       # IntFlag keeps unknown bits
            vals = sorted(m._value_ for m in cls)
            if vals == list(range(vals[0], vals[-1] + 1)):
                ok = sym.SymBool_and(value >= vals[0], value <= vals[-1])
            else:
                ok = SymBool_or(*[value == x for x in vals])
            if not ok:
                raise ValueError("%r is not a valid %s" % (value, cls.__qualname__))
            if issubclass(cls, int):
                return value
            return cls(value.__index__())
        if type(value) is tuple and any(isinstance(x, (SymInt, SymBool)) for x in value):
            for m in cls:
                mv = m._value_
                if type(mv) is tuple and len(mv) == len(value):
                    if sym.SymBool_and(*[a == b for a, b in zip(value, mv)]):
                        return m
            raise ValueError("symbolic tuple is not a valid %s" % cls.__qualname__)
    return _orig_enum_call(cls, value, *args, **kw)


def install_enum():
    enum.EnumType.__call__ = _enum_call


# ------------------------------------------------------------- run-time support called by instrumented code

STOP = object()
MUTABLE = (list, dict, set, bytearray, SymBytes)


class Rt:
    """__vc in instrumented modules"""
    STOP = STOP

    def __init__(self, world):
        self.world = world

    def contains(self, x, c):
        if isinstance(x, (SymInt, SymBool)):
            if isinstance(c, (set, frozenset, list, tuple, dict)) or isinstance(c, (type({}.keys()), type({}.values()))):
                return SymBool_or(*[x == e for e in c if isinstance(e, (int, SymInt, SymBool))])
            if isinstance(c, range) and c.step == 1:
                return sym.SymBool_and(x >= c.start, x < c.stop)
            if isinstance(c, enum.EnumType):
                return SymBool_or(*[x == e for e in c])
        elif isinstance(c, (list, tuple)) and any(isinstance(e, (SymInt, SymBool)) for e in c) and isinstance(x, int):
            return SymBool_or(*[x == e for e in c])
        elif isinstance(c, range) and isinstance(x, int):
            return x in c
        return x in c

    # conditions on symbolic values are combined instead of forking where the operands are free of side effects
    def eq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and sym.ENG is not None and sym.ENG.merge:
            if len(a) != len(b):
                return False
            if type(a).__eq__ is tuple.__eq__ and type(b).__eq__ is tuple.__eq__:
                r = True
                for x, y in zip(a, b):
                    t = self.eq(x, y)
                    if t is False:
                        return False
                    r = SymBool_and(r, t) if type(t) is SymBool else (r if t else False)
                    if r is False:
                        return False
                return r
        return a == b

    def ne(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.not_(self.eq(a, b))
        return a != b

    def not_(self, x):
        if type(x) is SymBool and sym.ENG.merge:
            return sym.SymBool_not(x)
        return not x

    def band(self, *fs):
        acc = fs[0]()
        for f in fs[1:]:
            if type(acc) is SymBool and sym.ENG.merge:
                try:
                    x = f()
                except Exception:
                    x = None
                if type(x) is SymBool or type(x) is bool:
                    acc = SymBool_and(acc, x)
                    continue
            if not acc:
                return acc
            acc = f()
        return acc

    def bor(self, *fs):
        acc = fs[0]()
        for f in fs[1:]:
            if type(acc) is SymBool and sym.ENG.merge:
                try:
                    x = f()
                except Exception:
                    x = None
                if type(x) is SymBool or type(x) is bool:
                    acc = SymBool_or(acc, x)
                    continue
            if acc:
                return acc
            acc = f()
        return acc

    # if-conversion support
    def symcond(self, c, loc, names, *attrs):
        if type(c) is not SymInt and type(c) is not SymBool or sym.ENG.fork:
            return False
        for n in names:
            if n not in loc or isinstance(loc[n], MUTABLE) and not (isinstance(loc[n], SymBytes)
                                                                   and not loc[n].mutable):
                return False
        for obj, name in attrs:
            if hasattr(type(obj), name):
                return False
            try:
                if name not in obj.__dict__:
                    return False
                x = obj.__dict__[name]
                if isinstance(x, MUTABLE) and not (isinstance(x, SymBytes) and not x.mutable):
                    return False
            except AttributeError:
                return False
        return True

    ite = staticmethod(ite)

    def loop(self, site):
        return LoopCtl(self, site, None)

    def iter(self, site, it):
        return LoopCtl(self, site, it)


class LoopCtl:
    """one activation of a loop; a harness may attach a loop contract to it"""
    __slots__ = ('rt', 'site', 'it', 'nxt', 'spec', 'count', 'data', 'seq')

    def __init__(self, rt, site, it):
        self.rt = rt
        self.site = site
        self.count = 0
        self.spec = None
        self.seq = it
        self.data = None
        self.nxt = None
        if it is not None:
            self.nxt = iter(it).__next__
        eng = sym.ENG
        if eng is not None:
            mgr = getattr(eng.v, 'loops', None)
            if mgr is not None:
                self.spec = mgr.attach(self)

    def head(self, loc):
        self.count += 1
        if self.spec is None:
            if self.count > 20000:
                raise Unsupported("loop without contract does not terminate symbolically at %s" % (self.site,))
            return None
        return self.spec.head(self, loc)

    def next(self):
        if self.spec is not None and getattr(self.spec, 'next', None) is not None:
            return self.spec.next(self)
        try:
            return self.nxt()
        except StopIteration:
            return STOP


# ------------------------------------------------------------- instrumentation

PURE_CALLS = {'bool', 'int', 'min', 'max', 'len', 'abs'}


def pure(e, attrs=None):
    """expression with no side effect and (on ints) no exception"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, (ast.LShift, ast.RShift, ast.Mod, ast.FloorDiv)):
            if not (isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and e.right.value > 0
                    or isinstance(e.op, (ast.LShift, ast.RShift)) and isinstance(e.right, ast.Constant)
                    and e.right.value == 0):
                return False
        elif not isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return False
        return pure(e.left) and pure(e.right)
    if isinstance(e, ast.UnaryOp):
        return not isinstance(e.op, ast.Not) and pure(e.operand)
    if isinstance(e, ast.Compare):
        return len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) \
            and pure(e.left) and pure(e.comparators[0])
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in PURE_CALLS and not e.keywords and all(
            pure(a) for a in e.args)
    return False


def pure_cond(e):
    if isinstance(e, ast.BoolOp):
        return all(pure_cond(x) for x in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return pure_cond(e.operand)
    if isinstance(e, ast.Compare):
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return pure(e.left) and all(pure(x) for x in e.comparators)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            c = e.comparators[0]
            return pure(e.left) and (pure(c) or isinstance(c, (ast.Set, ast.Tuple, ast.List)) and all(
                pure(x) for x in c.elts))
        return pure(e.left) and all(pure(x) for x in e.comparators)
    return pure(e)


def gen(src, node):
    out = ast.parse(src).body
    for st in out:
        for n in ast.walk(st):
            if hasattr(n, 'lineno'):
                n.lineno = n.end_lineno = node.lineno
                n.col_offset = n.end_col_offset = 0
    return out


def assigned_names(body):
    names = set()

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for s in body:
        W().visit(s)
    return sorted(n for n in names if not n.startswith('_vcrt'))


class Instr(ast.NodeTransformer):
    """1. `a in b` -> _vcrt.contains(b, a)
    2. loop heads call __vc (contract attachment); for-loops become explicit iterator loops
    3. `and`, `or`, `not`, chained comparisons over side-effect-free operands, and == of tuples give one symbolic condition
       where the operands are symbolic (otherwise they are evaluated as in Python)
    4. `if c:` whose branches are only side-effect-free assignments to names / plain attributes is evaluated on both
       branches and merged when c is symbolic
    Nothing is dropped."""

    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.k = 0
        self.infn = 0

    def uid(self):
        self.k += 1
        return self.k

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.infn += 1
        node.body = self.block(node.body)
        self.infn -= 1
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        infn, self.infn = self.infn, 0
        self.generic_visit(node)
        self.infn = infn
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _rt(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id='_vcrt', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                     args=args, keywords=[]), node)

    def _thunk(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def visit_UnaryOp(self, node):
        ok = isinstance(node.op, ast.Not) and self.infn and pure_cond(node.operand)
        self.generic_visit(node)
        return self._rt('not_', [node.operand], node) if ok else node

    def visit_BoolOp(self, node):
        ok = self.infn and all(pure_cond(e) for e in node.values)
        self.generic_visit(node)
        if ok:
            return self._rt('band' if isinstance(node.op, ast.And) else 'bor', [self._thunk(e) for e in node.values],
                            node)
        return node

    def visit_Compare(self, node):
        if len(node.ops) > 1 and self.infn and all(
                isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in node.ops) and \
                all(pure(e) for e in [node.left] + node.comparators):
            es = [node.left] + node.comparators
            return self.visit_BoolOp(ast.copy_location(ast.BoolOp(op=ast.And(), values=[
                ast.copy_location(ast.Compare(left=copy.deepcopy(es[i]), ops=[node.ops[i]], comparators=[es[i + 1]]), node)
                for i in range(len(node.ops))]), node))
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and self.infn and not (
                isinstance(node.left, ast.Constant) or isinstance(node.comparators[0], ast.Constant)):
            return self._rt('eq' if isinstance(node.ops[0], ast.Eq) else 'ne', [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(func=ast.Attribute(value=ast.Name(id='_vcrt', ctx=ast.Load()), attr='contains',
                                               ctx=ast.Load()),
                            args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.Call(func=ast.Name(id='_vc_not', ctx=ast.Load()), args=[call], keywords=[])
            return ast.copy_location(call, node)
        return node

    def _simple_body(self, body):
        """list of ('name', id) / ('attr', base expr, attr) targets, or None"""
        ts = []
        for s in body:
            if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.value):
                t = s.targets[0]
            elif isinstance(s, ast.AugAssign) and pure(ast.BinOp(left=ast.Constant(0), op=s.op, right=s.value)):
                t = s.target
            elif isinstance(s, ast.If) and pure(s.test):
                sub = self._simple_body(s.body)
                sub2 = self._simple_body(s.orelse)
                if sub is None or sub2 is None:
                    return None
                ts += sub + sub2
                continue
            else:
                return None
            if isinstance(t, ast.Name):
                ts.append(('name', t.id))
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                ts.append(('attr', t.value.id, t.attr))
            else:
                return None
        return ts

    def visit_If(self, node):
        ts = self._simple_body(node.body) if self.infn else None
        ts2 = self._simple_body(node.orelse) if ts is not None else None
        targets = []
        if ts is not None and ts2 is not None and pure(node.test):
            for t in ts + ts2:
                if t not in targets:
                    targets.append(t)
            names = {t[1] for t in targets if t[0] == 'name'}
            # an attribute base must not itself be reassigned inside
            if any(t[0] == 'attr' and t[1] in names for t in targets):
                targets = []
        if not targets:
            node.test = self.visit(node.test)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        u = self.uid()

        def texpr(t):
            return t[1] if t[0] == 'name' else '%s.%s' % (t[1], t[2])
        attrs = ''.join(', (%s, %r)' % (t[1], t[2]) for t in targets if t[0] == 'attr')
        lnames = tuple(t[1] for t in targets if t[0] == 'name')
        # the transformed branches appear twice in the output (merged and forked execution)
        sb = pb = self.block(node.body)
        so = po = self.block(node.orelse)
        c = '_vc_c%d' % u
        first = gen('%s = 0' % c, node)
        first[0].value = self.visit(node.test)
        tail = gen('if _vcrt.symcond(%s, locals(), %r%s):\n    pass\nelse:\n    pass' % (c, lnames, attrs), node)[0]
        body = []
        for i, t in enumerate(targets):
            body += gen('_vc_o%d_%d = %s' % (u, i, texpr(t)), node)
        body += sb
        for i, t in enumerate(targets):
            body += gen('_vc_t%d_%d = %s' % (u, i, texpr(t)), node)
        for i, t in enumerate(targets):
            body += gen('%s = _vc_o%d_%d' % (texpr(t), u, i), node)
        body += so
        for i, t in enumerate(targets):
            body += gen('%s = _vcrt.ite(%s, _vc_t%d_%d, %s)' % (texpr(t), c, u, i, texpr(t)), node)
        tail.body = body
        inner = gen('if %s:\n    pass' % c, node)[0]
        inner.body = pb
        inner.orelse = po
        tail.orelse = [inner]
        return first + [tail]

    def _loop(self, node, is_for):
        mods = assigned_names(node.body)
        body = self.block(node.body)
        u = self.uid()
        site = (self.modname, '.'.join(self.fn), node.lineno, 'for' if is_for else 'while', tuple(mods))
        lc = '_vc_lc%d' % u
        if is_for:
            pre = gen('%s = _vcrt.iter(%r, 0)' % (lc, site), node)
            pre[0].value.args[1] = self.visit(node.iter)
        else:
            pre = gen('%s = _vcrt.loop(%r)' % (lc, site), node)
        if mods:
            hd = gen('_vc_e = %s.head(locals())\nif _vc_e is not None:\n    (%s,) = _vc_e' % (
                lc, ', '.join(mods)), node)
        else:
            hd = gen('%s.head(locals())' % lc, node)
        if is_for:
            nx = gen('_vc_x%d = %s.next()\nif _vc_x%d is _vcrt.STOP:\n    break' % (u, lc, u), node)
            asg = gen('_vc_y = _vc_x%d' % u, node)
            asg[0].targets = [node.target]
            nb = hd + nx + asg + body
        else:
            brk = []
            if not (isinstance(node.test, ast.Constant) and node.test.value):
                brk = gen('if not _vc_y:\n    break', node)
                brk[0].test.operand = self.visit(node.test)
            nb = hd + brk + body
        loop = gen('while True:\n    pass', node)
        loop[0].body = nb
        return pre + loop

    def visit_While(self, node):
        if node.orelse:
            self.generic_visit(node)
            return node
        return self._loop(node, False)

    def visit_For(self, node):
        if node.orelse or not self.infn:
            self.generic_visit(node)
            return node
        return self._loop(node, True)


def fix_locations(tree):
    """ast.fix_missing_locations for a tree in which nodes may be shared"""
    seen = set()
    stack = [(tree, 1)]
    while stack:
        n, line = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if 'lineno' in n._attributes:
            if getattr(n, 'lineno', None) is None:
                n.lineno = n.end_lineno = line
                n.col_offset = n.end_col_offset = 0
            line = n.lineno
            if getattr(n, 'end_lineno', None) is None:
                n.end_lineno = line
            if getattr(n, 'col_offset', None) is None:
                n.col_offset = 0
            if getattr(n, 'end_col_offset', None) is None:
                n.end_col_offset = 0
        for c in ast.iter_child_nodes(n):
            stack.append((c, line))


def vc_not(x):
    return sym.SymBool_not(x)


# ------------------------------------------------------------- worlds

class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, world):
        self.world = world

    def _path(self, name):
        p = name.split('.')
        if p[0] == 'cocotb' or p[0] == 'cocotb_bus':
            root = STUBS
        elif p[:2] == ['cocotbext', 'pcie']:
            root = self.world.repo
        elif p[:2] == ['cocotbext', 'axi']:
            if len(p) == 2:
                return os.path.join(STUBS, 'cocotbext_axi', '__init__.py'), True
            root = VENV
        else:
            return None, False
        base = os.path.join(root, *p)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return (f if os.path.exists(f) else None), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ('cocotb', 'cocotbext', 'cocotb_bus'):
            return None
        if name == 'cocotbext':
            s = importlib.machinery.ModuleSpec(name, self, is_package=True)
            s.submodule_search_locations = []
            return s
        f, pkg = self._path(name)
        if f is None and not pkg:
            return None
        s = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pkg)
        if pkg:
            s.submodule_search_locations = []
        return s

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        name = m.__name__
        if name == 'cocotbext':
            return
        f, pkg = self._path(name)
        if f is None:
            return
        m.__file__ = f
        with open(f) as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        d = m.__dict__
        instr = self.world.instrument and name.startswith('cocotbext.')
        if instr:
            tree = Instr(name).visit(tree)
            fix_locations(tree)
            d['_vcrt'] = self.world.rt
            d['_vc_not'] = vc_not
            d.update(SHIMS)
        code = compile(tree, f, 'exec')
        exec(code, d)
        if instr:
            if d.get('struct') is real_struct:
                d['struct'] = self.world.struct
            for k in SHIMS:
                if d.get(k) is not SHIMS[k] and k in d:
                    pass
        if name.startswith('cocotbext.'):
            lg = d.get('logging')
            if isinstance(lg, types.ModuleType) and lg.__name__ == 'logging':
                d['logging'] = LoggingShim()
            if not instr:
                d['print'] = s_print


class World:
    def __init__(self, instrument, repo=None):
        self.instrument = instrument
        self.repo = repo or REPO
        self.rt = Rt(self)
        self.struct = StructShim()
        self.mods = {}
        self.finder = _Finder(self)
        if instrument:
            install_enum()
        self.load_errors = {}

    ALIASES = {'tlp': 'core.tlp', 'dllp': 'core.dllp'}

    def mod(self, name):
        """'core.tlp' -> cocotbext.pcie.core.tlp, 'axi.x', 'cocotb.x'"""
        if name.startswith('cocotb'):
            full = name
        elif name.startswith('axi'):
            full = 'cocotbext.' + name
        else:
            full = 'cocotbext.pcie.' + name
        m = self.mods.get(full)
        if m is None:
            m = self._import(full)
        return m

    def _import(self, full):
        pre = ('cocotb', 'cocotbext', 'cocotb_bus')

        def ours(k):
            return k.split('.')[0] in pre
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if ours(k)}
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.finder)
        old = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        try:
            importlib.import_module(full)
            self.mods = {k: sys.modules[k] for k in sys.modules if ours(k)}
            return self.mods[full]
        finally:
            sys.dont_write_bytecode = old
            sys.meta_path.remove(self.finder)
            for k in list(sys.modules):
                if ours(k):
                    del sys.modules[k]
            sys.modules.update(saved)

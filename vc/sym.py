"""Symbolic values for the contract verifier.

SymInt is an exact (mathematical, unbounded) Python int: a signed bit-vector
term together with a sound interval [lo, hi]; every operator widens the
bit-vector so that no overflow can happen.  SymBool is a Boolean term whose
truth value, when the code needs it, forks the exploration.  SymBytes is a
bytes/bytearray whose length and content may be symbolic.
"""
import z3
from . import lin as L

ENG = None          # the active Engine (set by explore.py)


class Unsupported(BaseException):
    """The symbolic world cannot execute this operation (engine limit, never a verdict)."""


class PathEnd(BaseException):
    """This path is finished (loop cut, contradictory assumption, ...)."""


def need(lo, hi):
    a = (lo if lo >= 0 else ~lo).bit_length() + 1
    b = (hi if hi >= 0 else ~hi).bit_length() + 1
    return a if a > b else b


def resize(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        if z3.is_bv_value(t):
            return z3.BitVecVal(t.as_signed_long(), w)
        return z3.SignExt(w - s, t)
    if z3.is_bv_value(t):
        return z3.BitVecVal(t.as_signed_long(), w)
    return z3.Extract(w - 1, 0, t)


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymBytes))


def as_sym(x):
    """int-like -> (term, lo, hi) or None"""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.to_int()
    if isinstance(x, int):
        x = int(x)
        return SymInt.const(x)
    return None


def mk(t, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


class SymInt:
    """t: signed bit-vector term, [lo, hi]: sound interval, lin: linear form (constant, {atom id: (coefficient, atom)})
    or None if the value is an atom; the linear form lets common terms cancel exactly"""
    __slots__ = ('t', 'lo', 'hi', 'lin', '__weakref__')

    def __init__(self, t, lo, hi, lin=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.lin = lin

    @staticmethod
    def const(x):
        return SymInt(z3.BitVecVal(x, need(x, x)), x, x)

    @staticmethod
    def unsigned(t):
        """from an unsigned bit-vector term"""
        w = t.size()
        return SymInt(z3.ZeroExt(1, t), 0, (1 << w) - 1)

    # -- conversions
    def __index__(self):
        return ENG.concretize(self)

    def __int__(self):
        return ENG.concretize(self)

    def __hash__(self):
        return hash(ENG.concretize(self))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __float__(self):
        return float(ENG.concretize(self))

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- arithmetic
    def _bin(self, other, f, lo, hi, extra=0):
        w = max(need(lo, hi), need(self.lo, self.hi), need(other.lo, other.hi)) + extra
        t = f(resize(self.t, w), resize(other.t, w))
        return mk(resize(t, need(lo, hi)) if not extra else resize(t, need(lo, hi)), lo, hi)

    def __add__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        lo, hi = self.lo + o.lo, self.hi + o.hi
        lin, cancel = lin_add(self, o, 1)
        if cancel:
            return lin_build(lin, lo, hi)
        r = self._bin(o, lambda a, b: a + b, lo, hi)
        if type(r) is SymInt:
            r.lin = lin
        return r

    __radd__ = __add__

    def __sub__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        lo, hi = self.lo - o.hi, self.hi - o.lo
        lin, cancel = lin_add(self, o, -1)
        if cancel:
            return lin_build(lin, lo, hi)
        r = self._bin(o, lambda a, b: a - b, lo, hi)
        if type(r) is SymInt:
            r.lin = lin
        return r

    def __rsub__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, SymBytes):
            return NotImplemented
        o = as_sym(o)
        if o is None:
            if isinstance(o, (bytes, bytearray)):
                return NotImplemented
            return NotImplemented
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        r = self._bin(o, lambda a, b: a * b, min(c), max(c))
        if type(r) is SymInt:
            if o.lo == o.hi:
                r.lin = lin_scale(self, o.lo)
            elif self.lo == self.hi:
                r.lin = lin_scale(o, self.lo)
        return r

    def __rmul__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes.lift(o) * self
        return self.__mul__(o)

    def __neg__(self):
        return SymInt.const(0).__sub__(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __invert__(self):
        return mk(~self.t, ~self.hi, ~self.lo)

    def __and__(self, o):
        if type(o) is not SymInt:
            o = as_sym(o)
            if o is None:
                return NotImplemented
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, min(self.hi, o.hi)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif o.lo >= 0:
            lo, hi = 0, o.hi
        else:
            k = max(need(self.lo, self.hi), need(o.lo, o.hi)) - 1
            lo, hi = -(1 << k), (1 << k) - 1
        if o.lo == o.hi:
            x, c = self, o.lo
        elif self.lo == self.hi:
            x, c = o, self.lo
        else:
            return self._bin(o, lambda a, b: a & b, lo, hi)
        if x.lo >= 0:
            c &= (1 << x.hi.bit_length()) - 1
            if c == 0:
                return 0
            if c == (1 << x.hi.bit_length()) - 1:
                return x
            hi = min(hi, c)
        low = None
        if c > 0 and c & (c + 1) == 0:                      # x mod 2^k
            r = lin_low(x, c.bit_length())
            if r is not None:
                return lin_build(r, lo, hi)
        elif c > 0 and x.lin is not None and (c | ((c & -c) - 1)) + 1 & c == 0:       # bits i..j-1
            i = (c & -c).bit_length() - 1
            rj, ri = lin_low(x, c.bit_length()), lin_low(x, i)
            if rj is not None and ri is not None:
                q, _ = lin_add(SymInt(None, -1, 1, rj), SymInt(None, -1, 1, ri), -1)
                if q is not None:
                    return lin_build(q, lo, hi)
        if c != -1 and (c < 0 or c & (c + 1)) and x.lin is not None:
            k = (c & -c).bit_length() - 1
            if (c >> k) == ((1 << x.hi.bit_length()) - 1) >> k if x.lo >= 0 else c >> k == -1:
                low = x & ((1 << k) - 1)                    # x - x mod 2^k
        r = self._bin(o, lambda a, b: a & b, lo, hi)
        if type(r) is SymInt and c > 0 and c & (c + 1) == 0:
            L.DEF[r.t.get_id()] = ('mod', lin_of(x), c.bit_length(), r.t)
        if low is not None and type(r) is SymInt:
            r.lin = lin_add(x, as_sym(low), -1)[0]
            if r.lin is not None and all(not f % (1 << k) for f, a in r.lin[1].values()):
                return lin_build(r.lin, lo, hi)
        return r

    __rand__ = __and__

    def _orx(self, o, f):
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        else:
            k = max(need(self.lo, self.hi), need(o.lo, o.hi)) - 1
            lo, hi = -(1 << k), (1 << k) - 1
        return self._bin(o, f, lo, hi)

    def __or__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return self._orx(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return self._orx(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        if o.lo < 0:
            if bool(mkbool(o < 0)):
                raise ValueError("negative shift count")
            o = as_sym(ite(o < 0, 0, o))
        if o.hi > 1024:
            raise Unsupported("shift amount up to %d" % o.hi)
        c = [self.lo << o.lo, self.lo << o.hi, self.hi << o.lo, self.hi << o.hi]
        r = self._bin(o, lambda a, b: a << b, min(c), max(c))
        if type(r) is SymInt and o.lo == o.hi:
            r.lin = lin_scale(self, 1 << o.lo)
        return r

    def __rlshift__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return o.__lshift__(self)

    def __rshift__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        if o.lo < 0:
            if bool(mkbool(o < 0)):
                raise ValueError("negative shift count")
            o = as_sym(ite(o < 0, 0, o))
        c = [self.lo >> o.lo, self.lo >> o.hi, self.hi >> o.lo, self.hi >> o.hi]
        if o.lo == o.hi and self.lin is not None and 0 < o.lo <= 64:
            r = lin_low(self, o.lo)
            if r is not None:
                m = 1 << o.lo
                q, _ = lin_add(self, SymInt(None, -1, 1, r), -1)
                if q is not None and not q[0] % m and all(not f % m for f, a in q[1].values()):
                    return lin_build((q[0] // m, {i: (f // m, a) for i, (f, a) in q[1].items()}), min(c), max(c))
        r = self._bin(o, lambda a, b: a >> b, min(c), max(c))
        if type(r) is SymInt and o.lo == o.hi:
            L.DEF[r.t.get_id()] = ('div', lin_of(self), o.lo, r.t)
        return r

    def __rrshift__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return o.__rshift__(self)

    def __mod__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        if o.lo == o.hi:
            c = o.lo
            if c == 0:
                raise ZeroDivisionError("integer modulo by zero")
            if c > 0 and c & (c - 1) == 0:
                return self & (c - 1)
        elif o.lo <= 0 <= o.hi:
            if bool(mkbool(o == 0)):
                raise ZeroDivisionError("integer modulo by zero")
        if o.lo >= 0:
            lo, hi = 0, max(o.hi - 1, 0)
            if self.lo >= 0:
                hi = min(hi, self.hi)
                return self._bin(o, lambda a, b: z3.URem(a, b), lo, hi)
        else:
            lo, hi = min(o.lo + 1, 0), max(o.hi - 1, 0)
        return self._bin(o, lambda a, b: a % b, lo, hi, extra=1)   # bvsmod: sign of divisor

    def __rmod__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return o.__mod__(self)

    def __floordiv__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        if o.lo == o.hi:
            c = o.lo
            if c == 0:
                raise ZeroDivisionError("integer division by zero")
            if c > 0 and c & (c - 1) == 0:
                return self >> (c.bit_length() - 1)
        elif o.lo <= 0 <= o.hi:
            if bool(mkbool(o == 0)):
                raise ZeroDivisionError("integer division by zero")
        m = max(abs(self.lo), abs(self.hi))
        if self.lo >= 0 and o.lo >= 0:
            return self._bin(o, lambda a, b: z3.UDiv(a, b), 0, self.hi)
        return self._bin(o, lambda a, b: (a - a % b) / b, -m - 1, m + 1, extra=2)

    def __rfloordiv__(self, o):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return o.__floordiv__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        raise Unsupported("float division of a symbolic int")

    __rtruediv__ = __truediv__

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        raise Unsupported("symbolic power")

    # -- comparison
    def _cmp(self, o, op, f, dec):
        o = as_sym(o)
        if o is None:
            return NotImplemented
        d = dec(self, o)
        if d is not None:
            return d
        lin, cancel = lin_add(self, o, -1)
        if cancel and lin is not None:
            if True:
                a = as_sym(lin_build(lin, self.lo - o.hi, self.hi - o.lo))
                self, o = a, SymInt.const(0)
                d = dec(self, o)
                if d is not None:
                    return d
        w = max(need(self.lo, self.hi), need(o.lo, o.hi))
        t = f(resize(self.t, w), resize(o.t, w))
        if lin is not None:
            L.CMP[t.get_id()] = (op, lin, t)
        return mkbool(t)

    def __lt__(self, o):
        return self._cmp(o, 'lt', lambda a, b: a < b,
            lambda a, b: True if a.hi < b.lo else False if a.lo >= b.hi else None)

    def __le__(self, o):
        return self._cmp(o, 'le', lambda a, b: a <= b,
            lambda a, b: True if a.hi <= b.lo else False if a.lo > b.hi else None)

    def __gt__(self, o):
        return self._cmp(o, 'gt', lambda a, b: a > b,
            lambda a, b: True if a.lo > b.hi else False if a.hi <= b.lo else None)

    def __ge__(self, o):
        return self._cmp(o, 'ge', lambda a, b: a >= b,
            lambda a, b: True if a.lo >= b.hi else False if a.hi < b.lo else None)

    def __eq__(self, o):
        r = self._cmp(o, 'eq', lambda a, b: a == b,
            lambda a, b: False if a.hi < b.lo or b.hi < a.lo else True if a.t.eq(b.t) else None)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne', lambda a, b: a != b,
            lambda a, b: True if a.hi < b.lo or b.hi < a.lo else False if a.t.eq(b.t) else None)
        return True if r is NotImplemented else r

    # -- int methods
    def bit_length(self):
        if self.lo < 0:
            x = abs(self)
            if not isinstance(x, SymInt):
                return x.bit_length()
        else:
            x = self
        r = 0
        for k in range(x.hi.bit_length()):
            r = ite(x >= (1 << k), k + 1, r)
        return r

    def bit_count(self):
        r = 0
        for k in range(self.hi.bit_length()):
            r = r + ((self >> k) & 1)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = int(length)
        if signed:
            ok = SymBool_and(self >= -(1 << (8 * length - 1)), self < (1 << (8 * length - 1)))
        else:
            ok = SymBool_and(self >= 0, self < (1 << (8 * length)))
        if not bool(ok):
            raise OverflowError("int too big to convert")
        items = [(self >> (8 * k)) & 0xff for k in range(length)]
        if byteorder == 'big':
            items.reverse()
        return SymBytes(items)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def value(self):        # enum-typed values keep .value
        return self

    @property
    def name(self):
        return '<sym>'


def lin_of(x):
    if x.lin is not None:
        return x.lin
    if x.lo == x.hi:
        return x.lo, {}
    return 0, {x.t.get_id(): (1, x)}


def lin_add(a, b, sign):
    """-> (linear form of a + sign*b or None, whether atoms were merged)"""
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    if len(da) + len(db) > 16:
        return None, False
    d = dict(da)
    merged = False
    for k, (c, x) in db.items():
        o = d.get(k)
        if o is None:
            d[k] = (sign * c, x)
        else:
            merged = True
            c = o[0] + sign * c
            if c:
                d[k] = (c, x)
            else:
                del d[k]
    return (ca + sign * cb, d), merged


def lin_scale(x, k):
    c, d = lin_of(x)
    if k == 0:
        return 0, {}
    return c * k, {i: (f * k, a) for i, (f, a) in d.items()}


def lin_low(x, k):
    """linear form of x mod 2^k if it is one (the terms that are no multiples of 2^k stay below 2^k)"""
    if x.lin is None:
        return None
    c, d = x.lin
    m = 1 << k
    r = {i: (f, a) for i, (f, a) in d.items() if f % m}
    c %= m
    l = h = c
    for f, a in r.values():
        l += f * (a.lo if f > 0 else a.hi)
        h += f * (a.hi if f > 0 else a.lo)
    if 0 <= l and h < m:
        return c, r
    return None


def lin_build(lin, lo, hi):
    """the value of a linear form known to lie in [lo, hi]"""
    c, d = lin
    l = h = c
    for f, a in d.values():
        l += f * (a.lo if f > 0 else a.hi)
        h += f * (a.hi if f > 0 else a.lo)
    lo, hi = max(lo, l), min(hi, h)
    if lo >= hi or not d:
        return c if not d else lo
    w = need(lo, hi)                    # modular arithmetic: the result fits, so intermediate wrap-around is harmless
    t = None
    for f, a in d.values():
        x = resize(a.t, w)
        if f != 1:
            x = -x if f == -1 else z3.BitVecVal(f, w) * x
        t = x if t is None else t + x
    if c:
        t = t + z3.BitVecVal(c, w)
    if len(d) == 1 and c == 0:
        (f, a), = d.values()
        if f == 1:
            return a
    return SymInt(t, lo, hi, lin)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if isinstance(t, SymBool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    """truthy -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        x = x != 0
        return x.t if isinstance(x, SymBool) else z3.BoolVal(bool(x))
    if isinstance(x, SymBytes):
        x = x.sym_len()
        return bterm(x != 0)
    return z3.BoolVal(bool(x))


def SymBool_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymInt)):
            ts.append(bterm(x))
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def SymBool_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymInt)):
            ts.append(bterm(x))
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def SymBool_not(x):
    if isinstance(x, (SymBool, SymInt)):
        return mkbool(z3.Not(bterm(x)))
    return not x


class SymBool:
    __slots__ = ('t', '__weakref__')

    def __init__(self, t):
        self.t = t

    def to_int(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __bool__(self):
        return ENG.branch(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<symbool>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symbool>'

    def _logic(self, o, f, g):
        if isinstance(o, SymBool):
            return mkbool(f(self.t, o.t))
        if isinstance(o, bool):
            return mkbool(z3.simplify(f(self.t, z3.BoolVal(o))))
        return g(self.to_int(), o)

    def __and__(self, o):
        return self._logic(o, z3.And, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, z3.Or, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._logic(o, z3.Xor, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return ~self.to_int()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return True if self.t.eq(o.t) else mkbool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.t))
        return self.to_int() == o

    def __ne__(self, o):
        return SymBool_not(self == o)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _deleg(name):
    def f(self, *a):
        return getattr(self.to_int(), name)(*a)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lshift', 'rlshift', 'rshift', 'rrshift', 'mod', 'rmod',
           'floordiv', 'rfloordiv', 'lt', 'le', 'gt', 'ge', 'neg', 'pos', 'abs', 'divmod', 'pow', 'rpow'):
    setattr(SymBool, '__%s__' % _n, _deleg('__%s__' % _n))
SymBool.bit_length = _deleg('bit_length')
SymBool.to_bytes = lambda self, *a, **k: self.to_int().to_bytes(*a, **k)


class CannotMerge(Exception):
    pass


def ite(c, a, b):
    """if-then-else merge; forks when the two values cannot be merged into one term"""
    try:
        return merge(c, a, b)
    except CannotMerge:
        return a if c else b


def merge(c, a, b):
    if isinstance(c, SymInt):
        c = c != 0
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ab = isinstance(a, (bool, SymBool))
    bb = isinstance(b, (bool, SymBool))
    if ab and bb:
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else SymBool_not(c)
        return mkbool(z3.If(c.t, bterm(a), bterm(b)))
    x, y = as_sym(a), as_sym(b)
    if x is not None and y is not None:
        if not (isinstance(a, SymInt) or isinstance(b, SymInt)) and a == b:
            return a
        if x.t.eq(y.t):
            return a
        lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
        w = need(lo, hi)
        r = mk(z3.If(c.t, resize(x.t, w), resize(y.t, w)), lo, hi)
        if type(r) is SymInt:
            L.DEF[r.t.get_id()] = ('ite', c.t, lin_of(x), lin_of(y), r.t)
        return r
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(merge(c, p, q) for p, q in zip(a, b))
    if isinstance(a, (SymBytes, bytes, bytearray)) and isinstance(b, (SymBytes, bytes, bytearray)):
        if isinstance(a, SymBytes) and a.mutable or isinstance(b, SymBytes) and b.mutable \
                or isinstance(a, bytearray) or isinstance(b, bytearray):
            raise CannotMerge
        return SymBytes.ite(c, SymBytes.lift(a), SymBytes.lift(b))
    raise CannotMerge


def sym_min(*args, **kw):
    if len(args) == 1:
        args = tuple(args[0])
    if kw or not any(isinstance(a, (SymInt, SymBool)) for a in args):
        return min(*args, **kw) if len(args) > 1 else min(args, **kw)
    r = args[0]
    for a in args[1:]:
        c = a < r
        if ENG.fork:
            r = a if c else r
            continue
        r2 = ite(c, a, r)
        x, y = as_sym(a), as_sym(r)
        if isinstance(r2, SymInt) and x is not None and y is not None:
            lo, hi = min(x.lo, y.lo), min(x.hi, y.hi)
            r2 = mk(resize(r2.t, need(lo, hi)), lo, hi)
        r = r2
    return r


def sym_max(*args, **kw):
    if len(args) == 1:
        args = tuple(args[0])
    if kw or not any(isinstance(a, (SymInt, SymBool)) for a in args):
        return max(*args, **kw) if len(args) > 1 else max(args, **kw)
    r = args[0]
    for a in args[1:]:
        c = a > r
        if ENG.fork:
            r = a if c else r
            continue
        r2 = ite(c, a, r)
        x, y = as_sym(a), as_sym(r)
        if isinstance(r2, SymInt) and x is not None and y is not None:
            lo, hi = max(x.lo, y.lo), max(x.hi, y.hi)
            r2 = mk(resize(r2.t, need(lo, hi)), lo, hi)
        r = r2
    return r


# ---------------------------------------------------------------- bytes

class SymBytes:
    """bytes/bytearray with possibly symbolic content and length.

    items is a list when the length is concrete, else None and (n, fn) hold a
    symbolic length and an index -> byte function (defined for 0 <= i < n)."""
    __slots__ = ('_items', 'n', 'fn', 'mutable', '__weakref__')

    def __init__(self, items=None, n=None, fn=None, mutable=False):
        if items is not None:
            self._items, self.n, self.fn = items, None, None
        elif isinstance(n, int) and n <= 4:
            self._items, self.n, self.fn = [fn(i) for i in range(n)], None, None
        else:
            self._items, self.n, self.fn = None, n, fn
        self.mutable = mutable

    @property
    def items(self):
        """list of the bytes if the length is concrete and small, else None"""
        if self._items is None and isinstance(self.n, int) and self.n <= 256:
            self._items = [self.fn(i) for i in range(self.n)]
        return self._items

    # -- helpers
    @staticmethod
    def lift(x):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SymBytes(list(x))
        if isinstance(x, (list, tuple)):
            return SymBytes(list(x))
        raise Unsupported("cannot lift %r to bytes" % type(x))

    @staticmethod
    def make(n, fn, mutable=False):
        return SymBytes(None, n, fn, mutable)

    def sym_len(self):
        return len(self._items) if self._items is not None else self.n

    def get(self, i):
        """byte at index i, 0 <= i < len assumed"""
        if self.fn is not None:
            if isinstance(i, int) and self._items is not None:
                return self._items[i]
            return self.fn(i)
        if isinstance(i, int):
            return self._items[i]
        items = self._items
        if not items:
            return 0
        lo, hi = max(i.lo, 0), min(i.hi, len(items) - 1)
        if hi < lo:
            return 0
        r = items[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = ite(i == k, items[k], r)
        return r

    def snap(self):
        """immutable snapshot"""
        if self.fn is not None:
            return SymBytes(None, self.n, self.fn)
        return SymBytes(list(self._items))

    @staticmethod
    def ite(c, a, b):
        la, lb = a.sym_len(), b.sym_len()
        if a.items is not None and b.items is not None and la == lb:
            return SymBytes([ite(c, x, y) for x, y in zip(a.items, b.items)])
        return SymBytes.make(ite(c, la, lb), lambda i: ite(c, a.get(i), b.get(i)))

    def _set(self, other):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        self._items, self.n, self.fn = other._items, other.n, other.fn

    # -- python protocol
    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else ENG.concretize(n)

    def __bool__(self):
        r = self.sym_len() != 0
        return r if isinstance(r, bool) else bool(r)

    def __iter__(self):
        i = 0
        while True:
            n = self.sym_len()
            if isinstance(n, int):
                if i >= n:
                    return
            elif not (n > i):
                return
            yield self.get(i)
            i += 1

    def __repr__(self):
        return '<symbytes>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symbytes>'

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __copy__(self):
        s = self.snap()
        s.mutable = self.mutable
        return s

    def __deepcopy__(self, memo):
        return self.__copy__()

    def _bounds(self, key):
        n = self.sym_len()
        if key.step not in (None, 1):
            raise Unsupported("slice step")

        def norm(x, d):
            if x is None:
                return d
            if isinstance(x, (SymInt, SymBool)) or isinstance(n, SymInt):
                s = as_sym(x)
                if s.lo < 0:
                    if s.hi < 0:
                        x = sym_max(x + n, 0)
                    else:
                        if ENG.fork:
                            x = sym_max(x + n, 0) if x < 0 else x
                        else:
                            x = ite(x < 0, sym_max(x + n, 0), x)
                return sym_min(x, n)
            x = int(x)
            if x < 0:
                x = max(x + n, 0)
            return min(x, n)
        return norm(key.start, 0), norm(key.stop, n), n

    def __getitem__(self, key):
        if isinstance(key, slice):
            a, b, n = self._bounds(key)
            if self._items is not None and isinstance(a, int) and isinstance(b, int):
                return SymBytes(self._items[a:b], mutable=self.mutable)
            ln = sym_max(b - a, 0)
            s = self.snap()
            return SymBytes(None, ln, lambda i: s.get(a + i), mutable=self.mutable)
        n = self.sym_len()
        if isinstance(key, int) and isinstance(n, int):
            if not -n <= key < n:
                raise IndexError('index out of range')
            return self.get(key if key >= 0 else key + n)
        k = as_sym(key)
        if k.lo < 0:
            key = ite(key < 0, key + n, key)
        if not SymBool_and(key >= 0, key < n):
            raise IndexError("index out of range")
        return self.get(key)

    def __setitem__(self, key, val):
        if isinstance(key, slice):
            a, b, n = self._bounds(key)
            val = SymBytes.lift(val).snap()
            if self.items is not None and val.items is not None and isinstance(a, int) and isinstance(b, int):
                it = list(self.items)
                it[a:b] = val.items
                self._set(SymBytes(it))
                return
            b = sym_max(a, b)
            self._set(cat(self.snap()[0:a], val, self.snap()[b:n]))
            return
        n = self.sym_len()
        k = as_sym(key)
        if k.lo < 0:
            key = ite(key < 0, key + n, key)
        if not SymBool_and(key >= 0, key < n):
            raise IndexError("index out of range")
        if not SymBool_and(val >= 0, val <= 255):
            raise ValueError("byte must be in range(0, 256)")
        if self.items is not None and isinstance(key, int):
            if not self.mutable:
                raise TypeError("bytes")
            it = list(self.items)
            it[key] = val
            self._items, self.n, self.fn = it, None, None
            return
        s = self.snap()
        if self.items is not None:
            self._set(SymBytes([ite(key == i, val, x) for i, x in enumerate(s.items)]))
        else:
            self._set(SymBytes.make(n, lambda i: ite(i == key, val, s.get(i))))

    def __delitem__(self, key):
        if isinstance(key, slice):
            self[key] = b''
        else:
            self[key:key + 1] = b''

    def extend(self, other):
        if not self.mutable:
            raise AttributeError("extend")
        other = SymBytes.lift(other if not hasattr(other, '__next__') else list(other))
        self._set(cat(self.snap(), other.snap()))

    def append(self, x):
        self.extend(SymBytes([x]))

    def clear(self):
        self._set(SymBytes([]))

    def pop(self, i=-1):
        if i not in (0, -1):
            raise Unsupported("pop")
        x = self[i]
        if i == 0:
            del self[0:1]
        else:
            n = self.sym_len()
            self._set(self.snap()[0:n - 1])
        return x

    def copy(self):
        return self.__copy__()

    def __add__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return NotImplemented
        r = cat(self.snap(), SymBytes.lift(o).snap())
        r.mutable = self.mutable
        return r

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        r = cat(SymBytes.lift(o), self.snap())
        r.mutable = isinstance(o, bytearray)
        return r

    def __iadd__(self, o):
        if self.mutable:
            self.extend(o)
            return self
        return self + o

    def __mul__(self, k):
        if self.items is not None and isinstance(k, int):
            return SymBytes(self.items * k, mutable=self.mutable)
        if self.items is not None and len(self.items) == 1:
            x = self.items[0]
            return SymBytes(None, sym_max(k, 0), lambda i: x, mutable=self.mutable)
        raise Unsupported("bytes repetition")

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return False
        o = SymBytes.lift(o)
        if self.items is not None and o.items is not None:
            if len(self.items) != len(o.items):
                return False
            return SymBool_and(*[x == y for x, y in zip(self.items, o.items)])
        if self.fn is not None and self.fn is o.fn:
            return self.n == o.n
        raise Unsupported("equality of symbolic-length bytes")

    def __ne__(self, o):
        return SymBool_not(self == o)

    def hex(self, *a):
        return '<symbytes>'

    def join(self, parts):
        r = SymBytes([])
        for p in parts:
            r = cat(r, SymBytes.lift(p))
        return r

    def startswith(self, p):
        return self[0:len(p)] == p

    def ljust(self, width, fill=b' '):
        n = self.sym_len()
        if isinstance(n, int):
            return SymBytes(self.items + [fill[0]] * max(0, width - n), mutable=self.mutable)
        raise Unsupported("ljust")


def cat(*parts):
    parts = [p for p in parts if not (p.items is not None and not p.items)]
    if not parts:
        return SymBytes([])
    r = parts[0].snap()
    for p in parts[1:]:
        p = p.snap()
        if r.items is not None and p.items is not None:
            r = SymBytes(r.items + p.items)
        else:
            def f(i, a=r, b=p, na=r.sym_len()):
                c = i < na
                if isinstance(c, bool):
                    return a.get(i) if c else b.get(i - na)
                return ite(c, a.get(i), b.get(i - na))
            r = SymBytes.make(r.sym_len() + p.sym_len(), f)
    return r

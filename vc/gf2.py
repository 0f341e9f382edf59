"""Equality of bit-vector terms by GF(2) normal form: each bit as an exclusive-or of input bits (a sound, incomplete
decision step used for CRC obligations; whatever it does not decide goes to the SMT solver)."""
import z3

BAD = None


def _xor(a, b):
    if a is None or b is None:
        return None
    return (a[0] ^ b[0], a[1] ^ b[1])


ZERO = (frozenset(), 0)
ONE = (frozenset(), 1)


class GF2:
    def __init__(self):
        self.memo = {}
        self.keep = []

    def const(self, b):
        return b[1] if b is not None and not b[0] else None

    def bits(self, t):
        """term -> tuple of affine bits, LSB first (an entry is None when not affine)"""
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._bits(t)
            self.keep.append(t)
        return r

    def _bits(self, t):
        w = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            x = t.as_long()
            return tuple(ONE if x >> i & 1 else ZERO for i in range(w))
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            n = t.decl().name()
            return tuple((frozenset([(n, i)]), 0) for i in range(w))
        if k == z3.Z3_OP_BXOR:
            r = self.bits(ch[0])
            for c in ch[1:]:
                r = tuple(_xor(a, b) for a, b in zip(r, self.bits(c)))
            return r
        if k == z3.Z3_OP_BNOT:
            return tuple(_xor(a, ONE) for a in self.bits(ch[0]))
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            ab = ZERO if k == z3.Z3_OP_BAND else ONE       # absorbing
            ne = ONE if k == z3.Z3_OP_BAND else ZERO
            r = self.bits(ch[0])
            for c in ch[1:]:
                out = []
                for a, b in zip(r, self.bits(c)):
                    if a == ab or b == ab:
                        out.append(ab)
                    elif a == ne:
                        out.append(b)
                    elif b == ne or a == b:
                        out.append(a)
                    else:
                        out.append(None)
                r = tuple(out)
            return r
        if k == z3.Z3_OP_CONCAT:
            r = ()
            for c in reversed(ch):
                r += self.bits(c)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            b = self.bits(ch[0])
            return b + (ZERO,) * (w - len(b))
        if k == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + (b[-1],) * (w - len(b))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
            n = min(ch[1].as_long(), w)
            b = self.bits(ch[0])
            if k == z3.Z3_OP_BSHL:
                return (ZERO,) * n + b[:w - n]
            return b[n:] + ((ZERO if k == z3.Z3_OP_BLSHR else b[-1]),) * n
        if k == z3.Z3_OP_ITE:
            c = self.boolean(ch[0])
            return tuple(self._ite(c, a, b) for a, b in zip(self.bits(ch[1]), self.bits(ch[2])))
        return (None,) * w

    def _ite(self, c, a, b):
        if a == b:
            return a
        if c is None or a is None or b is None:
            return None
        if c == ONE:
            return a
        if c == ZERO:
            return b
        d = _xor(a, b)
        if d == ONE:
            return _xor(b, c)
        return None

    def boolean(self, t):
        k = t.decl().kind()
        ch = t.children()
        if z3.is_true(t):
            return ONE
        if z3.is_false(t):
            return ZERO
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return (frozenset([t.decl().name()]), 0)
        if k == z3.Z3_OP_NOT:
            return _xor(self.boolean(ch[0]), ONE)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                r = None
                for a, b in zip(self.bits(ch[0]), self.bits(ch[1])):
                    d = _xor(a, b)
                    if d == ZERO:
                        continue
                    if d is None:
                        return None
                    if r is not None and r != d:
                        return None
                    r = d
                e = ONE if r is None else _xor(r, ONE)
            elif z3.is_bool(ch[0]):
                e = _xor(_xor(self.boolean(ch[0]), self.boolean(ch[1])), ONE)
            else:
                return None
            return e if k == z3.Z3_OP_EQ else _xor(e, ONE)
        if k == z3.Z3_OP_XOR:
            return _xor(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_ITE:
            return self._ite(self.boolean(ch[0]), self.boolean(ch[1]), self.boolean(ch[2]))
        return None


def same(a, b):
    """a and b (bit-vector terms of one width) are equal for every assignment"""
    g = GF2()
    return all(x is not None and x == y for x, y in zip(g.bits(a), g.bits(b)))

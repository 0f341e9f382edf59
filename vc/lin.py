"""Linear view of the path condition.

Conditions on symbolic ints are bit-vector terms; most of them are linear comparisons of a few atoms.  This module keeps
the same path condition as linear integer arithmetic (everything it does not understand becomes an unconstrained atom or
Boolean), so that an obligation that follows from linear facts is discharged without bit-blasting.  The view is weaker
than the path condition: 'unsat' here implies 'unsat' there; any other answer is left to the bit-vector solver."""
import z3

CMP = {}        # id of a comparison term -> (op, linear form of the difference, term)
DEF = {}        # id of an atom's term -> definition


def reset():
    CMP.clear()
    DEF.clear()


class View:
    def __init__(self):
        self.s = z3.SolverFor('QF_LIA')
        self.s.set('timeout', 400)
        self.stack = []         # terms
        self.known = [set()]    # atoms described per level
        self.ints = {}
        self.bools = {}
        self.cache = {}
        self.keep = []
        self.tries = self.hits = 0
        self.time = 0.0
        self.lost = 0.0         # time spent without an answer

    def useful(self):
        return (self.tries < 60 or self.hits * 12 > self.tries) and (self.lost < 3 or self.hits * .05 > self.lost)

    def sync(self, pc):
        st = self.stack
        k, n = 0, min(len(pc), len(st))
        while k < n and (st[k] is pc[k] or st[k].eq(pc[k])):
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            del st[k:]
            del self.known[k + 1:]
        for t in pc[k:]:
            self.s.push()
            st.append(t)
            self.known.append(set())
            self.add(t)

    def add(self, t):
        e, atoms = self.tr(t)
        self.describe(atoms)
        if e is not None:
            self.s.add(e)

    def describe(self, atoms):
        todo = list(atoms)
        while todo:
            i = todo.pop()
            if any(i in k for k in self.known):
                continue
            self.known[-1].add(i)
            a = self.ints[i][1]
            x = self.ints[i][0]
            self.s.add(x >= a.lo, x <= a.hi)
            d = DEF.get(i)
            if d is None:
                continue
            if d[0] == 'ite':
                c, ca = self.tr(d[1])
                if c is None:
                    continue
                p, pa = self.lin(d[2])
                q, qa = self.lin(d[3])
                self.s.add(x == z3.If(c, p, q))
                todo += list(ca | pa | qa)
            elif d[0] == 'mod':
                p, pa = self.lin(d[1])
                q = z3.Int('q%d' % i)
                self.s.add(p == q * (1 << d[2]) + x)
                self.s.add(x >= 0, x < 1 << d[2])
                todo += list(pa)
            elif d[0] == 'div':
                p, pa = self.lin(d[1])
                r = p - x * (1 << d[2])
                self.s.add(r >= 0, r < 1 << d[2])
                todo += list(pa)

    def atom(self, a):
        i = a.t.get_id()
        r = self.ints.get(i)
        if r is None:
            r = self.ints[i] = (z3.Int('a%d' % i), a)
            self.keep.append(a.t)
        return r[0], i

    def lin(self, form):
        c, d = form
        e = z3.IntVal(c)
        atoms = set()
        for f, a in d.values():
            x, i = self.atom(a)
            atoms.add(i)
            e = e + f * x
        return e, atoms

    def tr(self, t):
        """-> (translation or None, atoms)"""
        i = t.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self.cache[i] = self._tr(t)
            self.keep.append(t)
        return r

    def _tr(self, t):
        c = CMP.get(t.get_id())
        if c is not None:
            op, form, _ = c
            e, atoms = self.lin(form)
            if op == 'eq':
                return e == 0, atoms
            if op == 'ne':
                return e != 0, atoms
            if op == 'lt':
                return e < 0, atoms
            if op == 'le':
                return e <= 0, atoms
            if op == 'gt':
                return e > 0, atoms
            return e >= 0, atoms
        if z3.is_true(t) or z3.is_false(t):
            return t, set()
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or \
                (k == z3.Z3_OP_ITE and z3.is_bool(t)) or (k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0))):
            ch = [self.tr(x) for x in t.children()]
            atoms = set()
            for x, a in ch:
                atoms |= a
            xs = [x for x, a in ch]
            if k == z3.Z3_OP_AND:
                return z3.And(*xs), atoms
            if k == z3.Z3_OP_OR:
                return z3.Or(*xs), atoms
            if k == z3.Z3_OP_NOT:
                return z3.Not(xs[0]), atoms
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*xs), atoms
            if k == z3.Z3_OP_ITE:
                return z3.If(*xs), atoms
            return xs[0] == xs[1], atoms
        return z3.Bool('b%d' % t.get_id()), set()

    def refutes(self, pc, *extra):
        """True if pc and extra are contradictory in the linear view"""
        self.sync(pc)
        trs = [self.tr(t) for t in extra]
        self.tries += 1
        self.s.push()
        self.known.append(set())
        for e, atoms in trs:
            self.describe(atoms)
            self.s.add(e)
        r = self.s.check()
        self.s.pop()
        self.known.pop()
        if r == z3.unsat:
            self.hits += 1
            return True
        return False

"""Compare the symbolic operators of vc/sym.py with CPython: random expressions are built once over symbolic inputs and
once over numbers, and the engine must prove that they agree on random points and refute that they differ.
usage: python3-vt tools/selftest.py [SECONDS] [SEED]"""
import os
import random
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc import explore, load, sym       # noqa: E402
from vc.sym import sym_min, sym_max     # noqa: E402


def gen_range(rng):
    k = rng.randrange(6)
    if k == 0:
        return 0, (1 << rng.randrange(1, 40)) - 1
    if k == 1:
        return -rng.randrange(1, 1 << rng.randrange(1, 20)), rng.randrange(1, 1 << rng.randrange(1, 20))
    if k == 2:
        lo = rng.randrange(0, 4096)
        return lo, lo + rng.randrange(1, 4096)
    if k == 3:
        return 0, 1
    if k == 4:
        return -(1 << 31), (1 << 31) - 1
    return 0, (1 << 64) - 1


def const(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.randrange(-4, 17)
    if k == 1:
        return (1 << rng.randrange(0, 34)) - 1
    if k == 2:
        return 1 << rng.randrange(0, 34)
    if k == 3:
        return -(1 << rng.randrange(0, 34))
    return rng.getrandbits(rng.randrange(1, 34))


def pos(rng):
    k = rng.randrange(3)
    return max(1, (1 << rng.randrange(0, 13)) if k else rng.randrange(1, 100))


def tree(rng, d):
    if d == 0 or rng.random() < 0.1:
        return ('c', const(rng)) if rng.random() < 0.25 else ('v', rng.randrange(3))
    op = rng.choice(['+', '+', '-', '*k', '*', '&', '&k', '|', '^', '<<k', '>>k', '<<', '>>', '%k', '//k', '%', '//', '~', 'neg',
                     'abs', 'min', 'max', 'cmp', 'ite', 'bitlen', 'bits', 'field', 'bytes', 'rdiv', 'rsub', 'and', 'divmod'])
    if op in ('*k', '&k'):
        return op, tree(rng, d - 1), const(rng)
    if op in ('<<k', '>>k'):
        return op, tree(rng, d - 1), rng.randrange(0, 20)
    if op in ('%k', '//k', 'divmod'):
        return op, tree(rng, d - 1), pos(rng) * (-1 if rng.random() < 0.1 else 1)
    if op in ('~', 'neg', 'abs', 'bitlen', 'bits', 'rdiv', 'rsub'):
        return op, tree(rng, d - 1), const(rng)
    if op == 'field':
        return op, tree(rng, d - 1), rng.randrange(0, 20), rng.randrange(1, 20)
    if op == 'bytes':
        return op, tree(rng, d - 1), rng.randrange(1, 9), rng.choice(['big', 'little']), rng.randrange(0, 9), rng.randrange(0, 9)
    if op == 'cmp':
        return op, rng.choice(['<', '<=', '>', '>=', '==', '!=']), tree(rng, d - 1), tree(rng, d - 1)
    if op in ('ite', 'and'):
        return op, rng.choice(['<', '<=', '>', '>=', '==', '!=']), tree(rng, d - 1), tree(rng, d - 1), tree(rng, d - 2 if d > 1 else 0), \
            tree(rng, d - 2 if d > 1 else 0)
    return op, tree(rng, d - 1), tree(rng, d - 1)


def cmp(o, a, b):
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b,
            '!=': lambda: a != b}[o]()


def ev(t, e, S):
    """S: namespace of the functions the instrumented code would call"""
    o = t[0]
    if o == 'c':
        return t[1]
    if o == 'v':
        return e[t[1]]
    if o == 'cmp':
        return cmp(t[1], ev(t[2], e, S), ev(t[3], e, S)) + 0
    if o in ('ite', 'and'):
        c = cmp(t[1], ev(t[2], e, S), ev(t[3], e, S))
        x, y = ev(t[4], e, S), ev(t[5], e, S)
        if o == 'ite':
            return S['ite'](c, x, y)
        return (x if c else y)          # a fork
    a = ev(t[1], e, S)
    if o in ('*k', '&k', '<<k', '>>k', '%k', '//k', 'rdiv', 'rsub', 'divmod'):
        k = t[2]
        if o == '*k':
            return a * k
        if o == '&k':
            return a & k
        if o == '<<k':
            return a << k
        if o == '>>k':
            return a >> k
        if o == '%k':
            return a % k
        if o == '//k':
            return a // k
        if o == 'rdiv':
            return k // ((a & 7) + 1)
        if o == 'divmod':
            q, r = divmod(a, k)
            return q * 3 + r
        return k - a
    if o == '~':
        return ~a
    if o == 'neg':
        return -a
    if o == 'abs':
        return abs(a)
    if o == 'bitlen':
        return (a & 0xffff).bit_length()
    if o == 'bits':
        return (a & 0xff).bit_count()
    if o == 'field':
        return (a >> t[2]) & ((1 << t[3]) - 1)
    if o == 'bytes':
        n, order, i, j = t[2:]
        a = a & ((1 << 8 * n) - 1)
        b = S['to_bytes'](a, n, order)
        b = b[i % (n + 1):] + b[:j % n] + S['bytes']([1, 2])
        return S['from_bytes'](b, order)
    b = ev(t[2], e, S)
    if o == '+':
        return a + b
    if o == '-':
        return a - b
    if o == '*':
        return (a & 0xfff) * (b & 0xfff)
    if o == '&':
        return a & b
    if o == '|':
        return a | b
    if o == '^':
        return a ^ b
    if o == '<<':
        return (a & 0xffff) << (b & 15)
    if o == '>>':
        return a >> (b & 15)
    if o == '%':
        return (a & 0xff) % ((b & 15) + 1)
    if o == '//':
        return (a & 0xff) // ((b & 15) + 1)
    if o == 'min':
        return S['min'](a, b)
    if o == 'max':
        return S['max'](a, b)
    raise KeyError(o)


def s_from(b, order):
    return load.sym_from_bytes(b, order) if hasattr(load, 'sym_from_bytes') else sym_from(b, order)


def sym_from(b, order):
    n = len(b)
    r = 0
    for i in range(n):
        r = r | (b[i] << (8 * (n - 1 - i) if order == 'big' else 8 * i))
    return r


CONC = dict(ite=lambda c, a, b: a if c else b, min=min, max=max, bytes=bytes, to_bytes=lambda a, n, o: a.to_bytes(n, o),
            from_bytes=lambda b, o: int.from_bytes(b, o))
SYM = dict(ite=sym.ite, min=sym_min, max=sym_max, bytes=bytes,
           to_bytes=lambda a, n, o: a.to_bytes(n, o), from_bytes=sym_from)


def main():
    secs = float(sys.argv[1]) if len(sys.argv) > 1 else 60
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    w = load.World(True)
    t0 = time.time()
    n = pts = skip = 0
    bad = []
    while time.time() - t0 < secs:
        rng = random.Random(seed * 7919 + n)
        n += 1
        rs = [gen_range(rng) for _ in range(3)]
        t = tree(rng, rng.randrange(1, 5))
        points = []
        for _ in range(4):
            p = [explore.rand_int(rng, lo, hi) for lo, hi in rs]
            points.append((p, ev(t, p, CONC)))
        merge = rng.random() < 0.5
        hits = [0] * len(points)

        def h(v):
            if merge:
                v.merge()
            e = [v.int('abc'[i], *rs[i]) for i in range(3)]
            r = ev(t, e, SYM)
            for k, (p, x) in enumerate(points):
                here = v.And(*[e[i] == p[i] for i in range(3)])
                v.check('p%d' % k, v.Implies(here, r == x))
                if isinstance(r, sym.SymInt):
                    v.check('r%d' % k, v.Implies(here, v.And(r.lo <= x, x <= r.hi)))
                eng = v.eng
                if eng.query(sym.bterm(v.And(here, r == x))) == 'sat':
                    hits[k] += 1
        eng = explore.Engine('selftest', w, wall_limit=20, max_paths=300)
        r = eng.run(h, lambda e: explore.V(e, dict(tier='quick')))
        if r.truncated or r.unsupported:
            skip += 1
            if r.unsupported and 'engine' in r.unsupported[0]:
                bad.append((n - 1, r.unsupported[0]))
            continue
        pts += len(points)
        if r.failures or any(x != 1 for x in hits):
            bad.append((n - 1, t, rs, points, hits, [f.to_json() for f in r.failures][:2]))
            print('DISAGREEMENT', bad[-1])
    print('%d expressions (%d skipped: not supported or over budget), %d points, %d disagreements, %.0f s'
          % (n, skip, pts, len(bad), time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())

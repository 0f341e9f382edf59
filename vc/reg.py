"""Registry of contracts (harnesses).  A harness is the machine-checked specification of one or more real functions:
it creates an arbitrary state satisfying the precondition, calls the real code, and checks the postcondition."""
import importlib
import os

PROPS = {}


class Harness:
    def __init__(self, prop, fn, name, covers, funcs, tier, ok_exc, wall, bounded, fuzz, opts, trusted, split):
        self.prop, self.fn, self.name = prop, fn, name
        self.covers, self.funcs, self.tier = tuple(covers), tuple(funcs), tier
        self.ok_exc, self.wall, self.bounded, self.fuzz = ok_exc, wall, bounded, fuzz
        self.opts = opts
        self.trusted = trusted
        self.split = split

    def __call__(self, v):
        v.ok_exc = self.ok_exc
        if self.split is not None:
            return self.fn(v, self.opts['case'])
        return self.fn(v)


def contract(prop, covers=(), funcs=(), tier='quick', ok_exc=(), wall=400, bounded=None, fuzz=150, trusted=(),
             name=None, cases=None):
    """cases: list of parameter values; one independent harness per case (run in parallel)"""
    def d(fn):
        base = name or fn.__name__
        if cases is None:
            PROPS.setdefault(prop, []).append(Harness(prop, fn, base, covers, funcs, tier, ok_exc, wall, bounded,
                                                      fuzz, {}, trusted, None))
        else:
            for c in cases:
                t = tier
                if isinstance(c, Thorough):
                    c, t = c.value, 'thorough'
                label = c if isinstance(c, str) else '_'.join(map(str, c)) if isinstance(c, tuple) else str(c)
                PROPS.setdefault(prop, []).append(
                    Harness(prop, fn, '%s[%s]' % (base, label), covers, funcs, t, ok_exc, wall, bounded, fuzz,
                            {'case': c}, trusted, True))
        return fn
    return d


class Thorough:
    def __init__(self, value):
        self.value = value


def load(prop=None):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('vc.contracts.' + f[:-3])
    return PROPS

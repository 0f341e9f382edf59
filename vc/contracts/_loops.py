"""loop contracts that a harness attaches to a loop of the code under contract"""


class StateLoop:
    """A loop whose effect on the state is described by one ghost counter k:
       set(k)   establishes the invariant's state for k iterations' worth of progress
       inv(k)   the invariant, given the current progress
       now()    the current progress of the running code (from ghost state)
    The loop is entered in set(0); an arbitrary iteration starts in set(k), 0 <= k <= bound, and must end in inv(k')
    with k' > k.  Locals of the loop body are havocked by being unusable (they must be re-assigned before use)."""

    def __init__(self, v, module, kind, bound, setk, inv, now):
        self.v, self.module, self.kind = v, module, kind
        self.bound, self.setk, self.inv, self.now = bound, setk, inv, now
        self.used = False
        self.k = None

    def attach(self, lc):
        if self.used or lc.site[0] != self.module or lc.site[3] != self.kind:
            return None
        self.used = True
        return self

    def head(self, lc, loc):
        v = self.v
        if lc.count == 1:
            v.aux('invariant holds at entry', self.inv(self.now()))
            self.k = v.havoc_int('k', 0, v.hi(self.bound))
            v.assume(self.k <= self.bound)
            self.setk(self.k)
            return None
        k = self.now()
        v.aux('invariant is preserved', self.inv(k))
        v.aux('progress', k > self.k)
        v.aux('bounded', k <= self.bound)
        v.stop()


class Poison:
    """value of a loop local at the start of an arbitrary iteration that the contract says nothing about; using it before
    assigning it means the code carries state the contract does not know"""
    def _use(self, *a, **k):
        from vc.explore import NoSuchState
        raise NoSuchState('loop state outside the loop contract')
    __getattr__ = __bool__ = __int__ = __index__ = __len__ = __iter__ = __getitem__ = __setitem__ = __call__ = _use
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _use
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __mod__ = __floordiv__ = __lshift__ = __rshift__ = _use
    __iadd__ = __contains__ = __neg__ = __invert__ = __rmod__ = __rlshift__ = __rrshift__ = _use
    __hash__ = None


def is_fn(lc, module, fn):
    return lc.site[0] == module and lc.site[1].split('.')[-len(fn.split('.')):] == fn.split('.')


def locals_for(lc, known):
    """the tuple of new values for the locals assigned in the loop: the known ones, everything else unusable"""
    from vc.explore import NoSuchState
    for n in known:
        if n not in lc.site[4]:
            raise NoSuchState('loop local ' + n)
    return tuple(known.get(n, None) if n in known else Poison() for n in lc.site[4])

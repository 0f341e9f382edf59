import cocotb


class Trigger:
    def _prime(self, cb):
        raise NotImplementedError

    def _unprime(self, cb):
        pass

    def __await__(self):
        yield self
        return self


class NullTrigger(Trigger):
    def __init__(self, *a, **k):
        pass

    def _prime(self, cb):
        cb()


class _EventWait(Trigger):
    def __init__(self, ev):
        self.ev = ev

    def _prime(self, cb):
        if self.ev.fired:
            cb()
        else:
            self.ev._waiters.append(cb)

    def _unprime(self, cb):
        if cb in self.ev._waiters:
            self.ev._waiters.remove(cb)


class Event:
    def __init__(self, name=None):
        self.name = name
        self.fired = False
        self.data = None
        self._waiters = []

    def set(self, data=None):
        self.fired = True
        self.data = data
        w, self._waiters = self._waiters, []
        for cb in w:
            cb()

    def clear(self):
        self.fired = False

    def is_set(self):
        return self.fired

    def wait(self):
        return _EventWait(self)


_UNITS = {'step': 1, 'fs': 1, 'ps': 10**3, 'ns': 10**6, 'us': 10**9, 'ms': 10**12, 's': 10**15, 'sec': 10**15}


class Timer(Trigger):
    def __init__(self, time=None, units='step', *, time_ps=None, round_mode=None):
        self.steps = time if units == 'step' else int(time * _UNITS[units])
        self.live = None

    def _prime(self, cb):
        self.live = cocotb.sim.add_timer(self.steps, cb)

    def _unprime(self, cb):
        if self.live is not None:
            self.live[0] = False


class First(Trigger):
    def __init__(self, *triggers):
        self.triggers = [t.join() if isinstance(t, cocotb.Task) else t for t in triggers]
        self.which = None

    def _prime(self, cb):
        cbs = []

        def mk(t):
            def f():
                if self.which is None:
                    self.which = t
                    for u, c in cbs:
                        if u is not t:
                            u._unprime(c)
                    cb()
            return f
        for t in self.triggers:
            c = mk(t)
            cbs.append((t, c))
            t._prime(c)
            if self.which is not None:
                break

    def __await__(self):
        yield self
        return self.which


class Combine(Trigger):
    def __init__(self, *triggers):
        self.triggers = [t.join() if isinstance(t, cocotb.Task) else t for t in triggers]

    def __await__(self):
        for t in self.triggers:
            yield t
        return self


class Lock:
    def __init__(self, name=None):
        self.locked = False
        self._w = []

    async def acquire(self):
        while self.locked:
            e = Event()
            self._w.append(e)
            await e.wait()
        self.locked = True

    def release(self):
        self.locked = False
        if self._w:
            self._w.pop(0).set()

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class _Edge(Trigger):
    def __init__(self, sig):
        self.sig = sig

    def _prime(self, cb):
        self.sig._edge(self.kind, cb)

    def _unprime(self, cb):
        self.sig._unedge(self.kind, cb)


class RisingEdge(_Edge):
    kind = 'r'


class FallingEdge(_Edge):
    kind = 'f'


class Edge(_Edge):
    kind = 'e'


class ReadOnly(NullTrigger):
    pass


class ClockCycles(Trigger):
    pass


def Join(t):
    return t.join()

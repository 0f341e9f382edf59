"""Stand-in for the part of cocotb that cocotbext-pcie uses: a cooperative scheduler without a simulator.

Assumed to agree with cocotb 1.9 on: tasks run until they await, a started task first runs after the current task
suspends, Event/Queue/First/Timer wake-ups are never lost, time only moves when no task is runnable."""
import collections
import heapq
import logging
import os

log = logging.getLogger('cocotb')
plusargs = {}


class SimFailure(Exception):
    pass


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, coro):
        self.coro = coro
        self.done_ = False
        self.result_ = None
        self.exc = None
        self.waiters = []
        self.started = False
        self.killed = False
        self.wake = None

    def done(self):
        return self.done_

    def kill(self):
        if not self.done_:
            self.killed = self.done_ = True
            self.coro.close()
            self._finish()

    cancel = kill

    def result(self):
        if self.exc is not None:
            raise self.exc
        return self.result_

    def _finish(self):
        self.done_ = True
        for w in self.waiters:
            w()
        self.waiters = []

    def join(self):
        return Join(self)

    def __await__(self):
        yield from Join(self).__await__()
        return self.result()


class Join:
    def __init__(self, task):
        self.task = task

    def _prime(self, cb):
        if self.task.done_:
            cb()
        else:
            self.task.waiters.append(cb)

    def _unprime(self, cb):
        if cb in self.task.waiters:
            self.task.waiters.remove(cb)

    def __await__(self):
        if not self.task.done_:
            yield self
        return self.task.result()


class Sim:
    """one scheduler"""

    def __init__(self):
        self.ready = collections.deque()
        self.timers = []
        self.now = 0
        self.seq = 0
        self.on_idle = None
        self.steps = 0
        self.tasks = []
        self.max_steps = 2000000
        self.errors = []

    def start(self, coro):
        t = coro if isinstance(coro, Task) else Task(coro)
        self.tasks.append(t)
        self.ready.append(t)
        return t

    def step(self, t):
        if t.done_:
            return
        try:
            trig = t.coro.send(None)
        except StopIteration as e:
            t.result_ = e.value
            t._finish()
            return
        except Exception as e:
            t.exc = e
            had = bool(t.waiters)
            t._finish()
            if not had:
                self.errors.append(e)
            return
        fired = [False]

        def cb():
            if not fired[0]:
                fired[0] = True
                self.ready.append(t)
        t.wake = cb
        trig._prime(cb)

    def run_ready(self):
        while self.ready:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Deadlock("scheduler step limit")
            self.step(self.ready.popleft())
            if self.errors:
                raise self.errors.pop(0)

    def run(self, coro):
        main = self.start(coro)
        while True:
            while self.ready:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Deadlock("scheduler step limit")
                self.step(self.ready.popleft())
                if main.done_:
                    return main.result()
                if self.errors:
                    raise self.errors.pop(0)
            if main.done_:
                return main.result()
            if self.on_idle is not None and self.on_idle():
                continue
            if not self.advance():
                raise Deadlock("all tasks are waiting")

    def advance(self):
        """move time to the next timer"""
        while self.timers:
            t, _, cb, live = heapq.heappop(self.timers)
            if not live[0]:
                continue
            self.now = t
            cb()
            while self.timers and self.timers[0][0] == t:
                _, _, cb2, live2 = heapq.heappop(self.timers)
                if live2[0]:
                    cb2()
            return True
        return False

    def run_for(self, steps):
        """run until `steps` time units have passed"""
        end = self.now + steps
        self.run_ready()
        while self.timers and self.timers[0][0] <= end:
            self.advance()
            self.run_ready()
        self.now = end

    def add_timer(self, delay, cb):
        self.seq += 1
        live = [True]
        heapq.heappush(self.timers, (self.now + delay, self.seq, cb, live))
        return live


sim = Sim()


def reset():
    global sim
    sim = Sim()
    return sim


def start_soon(coro):
    return sim.start(coro)


def start(coro):
    return sim.start(coro)


def create_task(coro):
    return Task(coro)


fork = start_soon


def run(coro, fresh=True, on_idle=None):
    global sim
    if fresh:
        sim = Sim()
    sim.on_idle = on_idle
    return sim.run(coro)


def coroutine(f):
    return f


def test(*a, **k):
    def d(f):
        return f
    return d

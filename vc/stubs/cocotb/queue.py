import collections

from .triggers import Event


class QueueFull(Exception):
    pass


class QueueEmpty(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self._maxsize = maxsize
        self._queue = collections.deque()
        self._getters = []
        self._putters = []

    def qsize(self):
        return len(self._queue)

    @property
    def maxsize(self):
        return self._maxsize

    def empty(self):
        return not self._queue

    def full(self):
        return self._maxsize > 0 and len(self._queue) >= self._maxsize

    def _wake(self, ws):
        while ws:
            e = ws.pop(0)
            if not e.is_set():
                e.set()
                break

    def put_nowait(self, x):
        if self.full():
            raise QueueFull()
        self._queue.append(x)
        self._wake(self._getters)

    def get_nowait(self):
        if self.empty():
            raise QueueEmpty()
        x = self._queue.popleft()
        self._wake(self._putters)
        return x

    async def put(self, x):
        while self.full():
            e = Event()
            self._putters.append(e)
            await e.wait()
        self.put_nowait(x)

    async def get(self):
        while self.empty():
            e = Event()
            self._getters.append(e)
            await e.wait()
        return self.get_nowait()

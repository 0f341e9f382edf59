class Clock:
    def __init__(self, *a, **k):
        pass

    async def start(self, *a, **k):
        pass

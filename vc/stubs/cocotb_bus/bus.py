class Bus:
    def __init__(self, entity=None, name=None, signals=(), optional_signals=(), bus_separator="_", case_insensitive=True,
                 array_idx=None):
        self._entity, self._name, self._signals = entity, name, signals

    @classmethod
    def from_entity(cls, entity, **kw):
        return cls(entity, None, cls._signals, cls._optional_signals, **kw)

    @classmethod
    def from_prefix(cls, entity, prefix, **kw):
        return cls(entity, prefix, cls._signals, cls._optional_signals, **kw)

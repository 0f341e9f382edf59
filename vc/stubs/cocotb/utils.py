import cocotb
from .triggers import _UNITS


def get_sim_time(units='step'):
    if units in ('step', 'fs'):
        return cocotb.sim.now
    return cocotb.sim.now / _UNITS[units]


def get_sim_steps(time, units='step', *, round_mode=None):
    if units in ('step', 'fs'):
        return time
    return int(time * _UNITS[units])


def hexdump(*a, **k):
    pass

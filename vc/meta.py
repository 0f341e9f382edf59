TRUSTED_BASE = [
    'CPython 3.12 executing the real functions (the same interpreter version the project runs on)',
    'vc/load.py instrumentation (containment tests, loop heads, if-conversion of side-effect-free branches)',
    'vc/sym.py exact integer/bytes semantics over z3 bit-vectors, cross-checked on path models against CPython',
    'vc/stubs/cocotb scheduler stand-in for cocotb 1.9 tasks, Event, Queue, Timer, First',
    'z3 (every obligation); cvc5 re-checks obligations in the thorough tier',
]
ASSUMPTIONS = [
    'integers are exact (unbounded) Python integers; no machine arithmetic is abstracted',
    'logging and print output is dropped in the symbolic world (arguments are still evaluated)',
    'attribute reads inside if-converted branches have no side effects',
]

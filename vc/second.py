"""Second back end: re-discharge an obligation with cvc5 (independent bit-blaster and SAT solver)."""
import time
import z3

STATS = {'time': 0.0}


def check(terms, timeout_ms=60000):
    import cvc5
    s = z3.Solver()
    for t in terms:
        s.add(t)
    text = s.to_smt2()
    t0 = time.time()
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setLogic('QF_BV')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text.replace('(check-sat)', ''), 'q')
    sm = p.getSymbolManager()
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        if 'set-logic' in str(c):
            continue
        c.invoke(slv, sm)
    r = slv.checkSat()
    STATS['time'] += time.time() - t0
    return 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'

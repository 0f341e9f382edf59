"""check runner:  run.py check <PROP> [--tier quick|thorough] [--only HARNESS]
                  run.py replay <file>
                  run.py list"""
import argparse
import contextlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import resource
import sys
import warnings
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

warnings.simplefilter('ignore', RuntimeWarning)
from vc import reg                      # noqa: E402
from vc import load as vload            # noqa: E402

EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')

_worlds = {}


def world(instrument):
    w = _worlds.get(instrument)
    if w is None:
        w = _worlds[instrument] = vload.World(instrument)
    return w


def find(prop, name):
    for h in reg.PROPS.get(prop, []):
        if h.name == name:
            return h
    raise KeyError(name)


def trace_functions(h, inputs, tier):
    """names of the /repo functions the contract executes on one concrete run"""
    from vc import explore
    seen = set()
    repo = vload.REPO

    def tr(frame, ev, arg):
        co = frame.f_code
        if co.co_filename.startswith(repo):
            seen.add('%s:%s' % (os.path.relpath(co.co_filename, repo), getattr(co, 'co_qualname', co.co_name)))
        return None
    sys.setprofile(tr)
    try:
        explore.run_concrete(world(False), h, inputs=inputs, rng=random.Random(1), tier=tier)
    except BaseException:
        pass
    finally:
        sys.setprofile(None)
    return seen


def worker(job):
    prop, name, tier, seed, deadline = job
    t0 = time.time()
    out = dict(name=name, status='ok', error=None)
    try:
        from vc import explore
        h = find(prop, name)
        opts = dict(tier=tier)
        wall = h.wall if tier == 'quick' else max(h.wall * 2, 600)
        wall = max(2, min(wall, deadline - t0))
        out.update(obligations=0, discharged=0, trivial=0, by_label={}, failures=[], covers=[], unsupported=[],
                   paths=0, solver_time=0, queries=0, truncated=False, unknown=0, second={}, notes=[], functions=[],
                   samples_checked=0, fuzz_runs=0, fuzz_discarded=0, confirmed=[])
        load_err = None
        try:
            w = world(True)
            eng = explore.Engine(name, w, wall_limit=wall, backend2=(tier == 'thorough'), sample_models=6, seed=seed,
                                 path_cpu=120 if tier == 'quick' else 600)
            r = eng.run(h, lambda e: explore.V(e, opts))
            out.update(obligations=r.obligations, discharged=r.discharged, trivial=r.trivial, by_label=r.by_label,
                       failures=[f.to_json() for f in r.failures], covers=sorted(r.covers),
                       unsupported=r.unsupported, paths=r.paths, solver_time=r.solver_time, queries=r.queries,
                       truncated=r.truncated, unknown=r.unknown, second=r.second, notes=sorted(r.notes))
            samples = r.samples
        except Exception as e:
            load_err = traceback.format_exc()
            out['unsupported'] = ['engine: %s' % (load_err[-1500:])]
            samples = []
        sys_t = time.time()
        # ---- concrete side: replay, cross-check, falsification on the unmodified code
        fz = []

        def conc(inputs, rng):
            try:
                cv = explore.run_concrete(world(False), h, inputs=inputs, rng=rng, tier=tier)
            except explore.Discard:
                return None
            except vload.sym.Unsupported:
                return None
            return cv
        aux = [f for f in out['failures'] if f['label'].startswith('~')]
        if aux:
            # a loop invariant does not fit this code: what was derived under it proves and refutes nothing
            out['failures'] = [f for f in out['failures'] if not f['label'].startswith('~') and not f['cut']]
            out['unsupported'].append('loop contract does not fit: %s' % aux[0]['label'])
        for f in list(out['failures']):
            if f['reason'] == 'unknown':
                # the solver gave up: undecided, never an alarm
                out['failures'].remove(f)
                out['unsupported'].append('solver gave up on obligation %r' % f['label'])
                continue
            if f['inputs'] is None or len(out['confirmed']) >= 3:
                continue
            cv = conc(f['inputs'], random.Random(seed))
            if cv is not None and not cv.failures and not f['cut']:
                # the model is a complete input of the contract and the real code satisfies the contract on it: the
                # engine misrepresents this code; never an alarm, the contract is reported as not decided
                out['failures'].remove(f)
                out['unsupported'].append('engine/CPython disagree on obligation %r (%s)' % (f['label'], f['detail']))
            if cv is not None and cv.failures:
                out['confirmed'].append(dict(label=cv.failures[0][0], detail=cv.failures[0][1], inputs=cv.used,
                                             how='counterexample of obligation %r replayed' % f['label']))
        for s in samples:
            cv = conc(s, random.Random(seed))
            if cv is None:
                continue
            out['samples_checked'] += 1
            if cv.failures:
                out['confirmed'].append(dict(label=cv.failures[0][0], detail=cv.failures[0][1], inputs=cv.used,
                                             how='path model cross-check'))
        broken = bool(out['failures'] or out['unsupported'] or out['truncated'])
        n = h.fuzz * (1 if tier == 'quick' else 10)
        budget = 15 if tier == 'quick' else 60
        if broken:
            n, budget = max(n, 20000), 90
            if tier == 'quick' and len(out['unsupported']) + out['truncated'] and t0 > deadline - 300:
                budget = 30
        t1 = time.time()
        budget = max(2, min(budget, deadline - t1))
        k = 0
        while k < n and time.time() - t1 < budget and not out['confirmed']:
            k += 1
            cv = conc(None, random.Random(seed * 1000003 + k))
            out['fuzz_runs'] += 1
            if cv is None:
                out['fuzz_discarded'] += 1
                continue
            if cv.failures:
                out['confirmed'].append(dict(label=cv.failures[0][0], detail=cv.failures[0][1], inputs=cv.used,
                                             how='random falsification'))
        fn = set(h.funcs)
        for s in samples[:2] or [None]:
            fn |= trace_functions(h, s, tier)
        out['functions'] = sorted(fn)
        out['missing_covers'] = sorted(set(h.covers) - set(out['covers']))
    except MemoryError:
        return lost(job, 'out of memory')
    except Exception:
        out['status'] = 'error'
        out['error'] = traceback.format_exc()[-3000:]
    out['wall'] = time.time() - t0
    return out


# a worker may use this much memory; beyond it the contract counts as not decided
MEMORY = 3 << 30


def child(job, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        r = worker(job)
    except MemoryError:
        r = lost(job, 'out of memory')
    conn.send(r)
    conn.close()


def lost(job, why):
    return dict(name=job[1], status='ok', error=None, obligations=0, discharged=0, trivial=0, by_label={}, failures=[], covers=[],
                unsupported=[why], paths=0, solver_time=0, queries=0, truncated=True, unknown=0, second={}, notes=[],
                functions=[], samples_checked=0, fuzz_runs=0, fuzz_discarded=0, confirmed=[], missing_covers=[], wall=0)


def run_jobs(jobs, nproc, last):
    """each job in a process of its own, nproc at a time; a process that dies or is not done at the time `last` gives no verdict"""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = {}
    try:
        while todo or live:
            while todo and len(live) < nproc:
                job = todo.pop(0)
                rd, wr = ctx.Pipe(duplex=False)
                p = ctx.Process(target=child, args=(job, wr), daemon=True)
                p.start()
                wr.close()
                live[rd] = (job, p)
            ready = multiprocessing.connection.wait(list(live), timeout=5)
            if time.time() > last:
                ready = list(live)
            for rd in ready:
                job, p = live.pop(rd)
                try:
                    r = rd.recv() if rd.poll() else lost(job, 'not done in time')
                except (EOFError, OSError):
                    r = lost(job, 'the process of this contract died')
                rd.close()
                if p.is_alive():
                    p.join(1)
                    p.kill()
                p.join()
                yield r
    finally:
        for rd, (job, p) in live.items():
            p.kill()
            p.join()


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'items': list(x)}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, str, float, bool)) or x is None:
        return x
    return repr(x)


def load_weights():
    """seconds each contract took when last measured: only the order in which they are started"""
    try:
        with open(os.path.join(HERE, 'weights.json')) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def is_known(known, prop, name, label, detail):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if re.fullmatch(k['harness'], name) and re.fullmatch(k['label'], label) and re.search(k.get('detail', ''),
                                                                                                 detail or ''):
            return k
    return None


def check(prop, tier, only=None, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg.load()
    hs = [h for h in reg.PROPS.get(prop, []) if tier == 'thorough' or h.tier == 'quick']
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    if not hs:
        print('no contracts registered for %s' % prop)
        return 1
    # no contract runs past the deadline; what is not decided by then is reported as not decided
    deadline = t0 + (480 if tier == 'quick' else 2400)
    weight = load_weights().get(prop, {})
    jobs_ = [(prop, h.name, tier, seed, deadline) for h in sorted(hs, key=lambda h: -weight.get(h.name, 1))]
    nproc = min(jobs or 8, len(jobs_))
    # load both worlds once before forking: imports of /repo's current tree happen here, on every run
    import_err = None
    try:
        world(True)
        world(False)
        for m in ('core.rc', 'core.endpoint', 'core.device'):
            world(False).mod(m)
            world(True).mod(m)
    except Exception:
        import_err = traceback.format_exc()[-2000:]
    results = []
    if jobs == 1 and os.environ.get('VC_INLINE'):
        results = [worker(j) for j in jobs_]
    else:
        with contextlib.closing(run_jobs(jobs_, nproc, deadline + 200)) as done:
            for r in done:
                results.append(r)
                if os.environ.get('VC_VERBOSE'):
                    print('  %-50s paths=%-6s obl=%s/%s fail=%d uns=%d conf=%d wall=%.1f fuzz=%s' % (
                        r['name'], r.get('paths'), r.get('discharged'), r.get('obligations'),
                        len(r.get('failures', [])), len(r.get('unsupported', [])), len(r.get('confirmed', [])),
                        r['wall'], r.get('fuzz_runs')), flush=True)
                if sum(bool(x.get('confirmed')) for x in results) >= 4 and not any(
                        k.get('status') == 'known' and k['property'] == prop for k in load_known()):
                    # refuted several times over, each with an input: the rest would add nothing
                    print('stopped after %d of %d contracts: %d of them are violated by concrete inputs' % (
                        len(results), len(jobs_), sum(bool(x.get('confirmed')) for x in results)))
                    break
    results.sort(key=lambda r: r['name'])
    known = load_known()
    viol = []
    known_hit = []
    degraded = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)

    def write_replay(r, body):
        fn = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', r['name'])))
        with open(fn, 'w') as f:
            json.dump(jsonable(body), f, indent=1)
        return fn
    for r in results:
        if r['status'] == 'error':
            viol.append((r, 'internal error', write_replay(r, dict(property=prop, harness=r['name'],
                                                                   error=r['error'])), False))
            continue
        conf = r['confirmed']
        new_conf = []
        for c in conf:
            k = is_known(known, prop, r['name'], c['label'], c['detail'])
            if k:
                known_hit.append(k)
            else:
                new_conf.append(c)
        labels_known = {k['label'] for k in known_hit}
        rest = []
        for f in r['failures']:
            k = is_known(known, prop, r['name'], f['label'], f['detail'])
            if k:
                known_hit.append(k)
            else:
                rest.append(f)
        if new_conf:
            fn = write_replay(r, dict(property=prop, tier=tier, harness=r['name'], confirmed=new_conf[0],
                                      failed_obligations=rest[:10]))
            viol.append((r, new_conf[0]['label'] + ' ' + new_conf[0]['detail'], fn, True))
        elif rest:
            fn = write_replay(r, dict(property=prop, harness=r['name'], confirmed=None, failed_obligations=rest[:20],
                                      fuzz_runs=r['fuzz_runs']))
            viol.append((r, rest[0]['label'] + ' (%s) ' % rest[0]['reason'] + rest[0]['detail'], fn, False))
        elif r['unsupported'] or r['truncated']:
            degraded.append(r)
        elif r['obligations'] == 0 or r['missing_covers']:
            fn = write_replay(r, dict(property=prop, harness=r['name'], vacuous=True, missing=r['missing_covers']))
            viol.append((r, 'vacuous contract: no obligations or unreached: %s' % r['missing_covers'], fn, False))
    tot = sum(r.get('obligations', 0) for r in results)
    dis = sum(r.get('discharged', 0) for r in results)
    if tot == 0 and not viol:
        fn = write_replay(dict(name='none'), dict(property=prop, error='no obligations generated'))
        viol.append((dict(name='none'), 'no obligations', fn, False))
    write_evidence(prop, tier, seed, results, viol, degraded, known_hit, time.time() - t0, hs)
    seen = set()
    for k in known_hit:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in degraded:
        print('NOTE property=%s contract %s: not decided deductively on this tree (%s); bounded falsification ran %d '
              'inputs, no violation' % (prop, r['name'], (r['unsupported'] or ['budget'])[0][:300], r['fuzz_runs']))
    for i, (r, why, fn, confirmed) in enumerate(sorted(viol, key=lambda x: not x[3])):
        if i >= 6:
            print('... and %d more contracts' % (len(viol) - i))
            break
        print('contract %s: %s' % (r['name'], why[:400]))
        print('VIOLATION property=%s replay=%s%s' % (prop, fn, '' if confirmed else ' no-failing-input-found'))
    print('%s: %d contracts, %d/%d obligations discharged, %d paths, %.1f s' % (
        prop, len(results), dis, tot, sum(r.get('paths', 0) for r in results), time.time() - t0))
    return 1 if viol else 0


def write_evidence(prop, tier, seed, results, viol, degraded, known_hit, wall, hs):
    os.makedirs(EVID, exist_ok=True)
    hmap = {h.name: h for h in hs}
    from vc.meta import TRUSTED_BASE, ASSUMPTIONS
    bounded = [dict(contract=r['name'], bound=hmap[r['name']].bounded) for r in results
               if r['name'] in hmap and hmap[r['name']].bounded]
    bnames = {b['contract'] for b in bounded} | {r['name'] for r in degraded}
    funcs = set()
    for r in results:
        funcs |= set(r.get('functions', []))
    trusted = sorted({t for h in hs for t in h.trusted})
    pd = [r for r in results if r['name'] not in bnames]
    second = {}
    for r in results:
        for k, n in r.get('second', {}).items():
            second[k] = second.get(k, 0) + n
    cov = dict(
        obligations=sum(r.get('obligations', 0) for r in pd),
        discharged=sum(r.get('discharged', 0) for r in pd),
        checker_cmd='python3-vt vc/run.py check %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED_BASE + trusted)
    if bnames:
        cov['explanation'] = (
            'contract verification; the contracts listed under bounded / degraded are checked only up to the stated bound '
            'and their obligations are not in the counts: %s' % ', '.join(sorted(bnames)))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof' if not bnames else 'other', coverage=cov,
        assumptions=ASSUMPTIONS + trusted,
        wall_s=round(wall, 2),
        violations=len(viol),
        details=dict(
            contracts=[dict(
                name=r['name'], obligations=r.get('obligations'), discharged=r.get('discharged'),
                decided_by_intervals_or_evaluation=r.get('trivial'), paths=r.get('paths'),
                solver_queries=r.get('queries'), solver_time_s=round(r.get('solver_time', 0), 3),
                wall_s=round(r['wall'], 2), by_label=r.get('by_label'), unsupported=r.get('unsupported'),
                truncated=r.get('truncated'), second_backend=r.get('second'),
                path_models_crosschecked=r.get('samples_checked'), random_runs=r.get('fuzz_runs'),
                notes=r.get('notes'), bounded=hmap[r['name']].bounded if r['name'] in hmap else None,
                error=r.get('error')) for r in results],
            labels={},
            functions_under_contract=sorted(funcs),
            bounded_not_counted_as_proved=bounded,
            degraded_this_run=[dict(contract=r['name'], why=(r['unsupported'] or ['budget'])[:3]) for r in degraded],
            backends=dict(z3='QF_BV incremental (every obligation)', cvc5=second or 'thorough tier only'),
            known_findings=[k['id'] for k in known_hit]))
    cs = ev['details']['contracts']
    for c in cs:
        for k in [k for k in c if c[k] in (None, [], {}, False)]:
            del c[k]
    ev = jsonable(ev)
    if len(json.dumps(ev)) > 600000:
        # obligations by label are given for the contract instead of each of its cases
        labels = ev['details']['labels']
        for c in ev['details']['contracts']:
            d = labels.setdefault(c['name'].split('[')[0], {})
            for k, n in (c.pop('by_label', None) or {}).items():
                d[k] = [a + b for a, b in zip(d[k], n)] if isinstance(n, list) and k in d else (d.get(k, 0) + n if isinstance(n, (int, float)) else n)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        if len(json.dumps(ev)) > 200000:
            json.dump(ev, f)
        else:
            json.dump(ev, f, indent=1)


def replay(fn):
    from vc import explore
    reg.load()
    with open(fn) as f:
        d = json.load(f)
    print('property %s contract %s' % (d['property'], d['harness']))
    if not d.get('confirmed'):
        print('no failing input was found; failed obligations:')
        print(json.dumps(d.get('failed_obligations') or d, indent=1))
        return 1
    h = find(d['property'], d['harness'])
    cv = explore.run_concrete(vload.World(False), h, inputs=d['confirmed']['inputs'], rng=random.Random(1),
                              tier=d.get('tier', 'quick'))
    print(json.dumps(d['confirmed']['inputs'], indent=1))
    for lab, det in cv.failures:
        print('FAILS: %s %s' % (lab, det))
    if not cv.failures:
        print('holds on this tree')
    return 1 if cv.failures else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'list'])
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=None)
    a = ap.parse_args()
    if a.cmd == 'list':
        reg.load()
        for p in sorted(reg.PROPS):
            for h in reg.PROPS[p]:
                print(p, h.name, h.tier)
        return 0
    if a.cmd == 'replay':
        return replay(a.arg)
    return check(a.arg, a.tier, a.only, a.j)


if __name__ == '__main__':
    sys.exit(main())

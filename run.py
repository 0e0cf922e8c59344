"""run.py PROPERTY [quick|thorough]: decide one property, write its evidence file.

exit 0: every query discharged; exit 1 + VIOLATION line: a reproduced
counterexample; exit 2: harness error / not reproduced; exit 3: inconclusive.
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env  # noqa

env.setup()

import collections  # noqa
import concurrent.futures as cf  # noqa
import importlib  # noqa
import json  # noqa
import multiprocessing as mp  # noqa
import subprocess  # noqa
import time  # noqa

from symx import core, reg as H  # noqa

VERIF = os.path.dirname(os.path.abspath(__file__))


def load(prop):
    idx = json.load(open(os.path.join(VERIF, 'checks', 'index.json')))
    importlib.import_module('checks.' + idx[prop]['module'])
    return idx[prop], H.HARNESSES[prop]


def task(args):
    prop, hi, params, prefixes, paths, secs, profile = args
    h = H.HARNESSES[prop][hi]
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        r = core.explore(h.fn, params, prefixes, paths, secs, profile, env.REPO + '/')
    finally:
        sys.stdout, sys.stderr = so, se
    return r


def replay(prop, h, params, model, msg, outdir):
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, f'{prop}-{h.name}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'harness': h.name, 'params': params,
                   'model': model, 'message': msg}, f, indent=1, default=str)
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path],
                       capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PYTHONHASHSEED='0'))
    return path, p.returncode, p.stdout + p.stderr


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    cap = float(os.environ.get('SYMX_CAP', 780 if tier == 'quick' else 3600))
    meta, hs = load(prop)
    only = os.environ.get('SYMX_ONLY')
    jobs = int(os.environ.get('SYMX_JOBS', 8))
    per = []  # per harness case: dict
    pending = collections.deque()
    for hi, h in enumerate(hs):
        if only and h.name != only:
            continue
        for params in h.cases(tier):
            c = dict(hi=hi, h=h, params=params, stats=core.Stats(), running=0, queued=0, t=0.0)
            per.append(c)
            pending.append((c, [[]], True))
            c['queued'] += 1
    outcome = None
    problems = []
    ctxm = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(jobs, mp_context=ctxm)
    live = {}
    try:
        while pending or live:
            while pending and len(live) < jobs:
                c, prefixes, first = pending.popleft()
                a = (prop, c['hi'], c['params'], prefixes,
                     30 if first else 10**9, 3 if first else 4.0, 25 if first else 0)
                live[ex.submit(task, a)] = c
            done, _ = cf.wait(live, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                c = live.pop(f)
                stats, left, out = f.result()
                c['stats'].merge(stats)
                if out:
                    kind, msg, model = out
                    outcome = (kind, c, msg, model)
                    raise StopIteration
                if left:
                    # spread: shallow alternatives (whole subtrees) over the workers
                    left.sort(key=len)
                    k = max(1, min(len(left), jobs))
                    for i in range(k):
                        part = left[i::k]
                        part.reverse()
                        pending.append((c, part, False))
            if time.time() - t0 > cap:
                outcome = ('inconclusive', None, f'time cap {cap}s reached', None)
                raise StopIteration
    except StopIteration:
        pass
    finally:
        procs = list(getattr(ex, '_processes', {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()

    total = core.Stats()
    hsum = []
    for c in per:
        s = c['stats']
        total.merge(s)
        hsum.append(dict(harness=c['h'].name, params=c['params'], bounds=c['h'].bounds,
                         stubs=c['h'].stubs, paths=s.paths, infeasible_or_cut=s.cut,
                         branches=s.branches, queries=s.queries,
                         property_checks=s.checks, property_queries_unsat=s.unsat_checks,
                         reached=s.reached, solver_s=round(s.solver_s, 2)))
    rc = 0
    line = None
    if outcome:
        kind, c, msg, model = outcome
        if kind == 'inconclusive':
            print(f'INCONCLUSIVE {prop}: {msg}')
            rc = 3
        else:
            h = c['h']
            path, code, text = replay(prop, h, c['params'], model, msg,
                                      os.path.join(VERIF, 'replays'))
            if kind == 'violation' and code == 1:
                print(f'{prop} {h.name}: {msg}')
                print(text[-3000:])
                line = f'VIOLATION property={prop} replay={path}'
                rc = 1
            else:
                print(f'ERROR {prop} {h.name} {kind}: {msg}\nreplay exit {code}:\n{text[-4000:]}')
                rc = 2
    else:
        # vacuity: every declared label must have been reached on a feasible path
        by = {}
        for c in per:
            d = by.setdefault(c['h'].name, [c['h'], {}, 0])
            for k, v in c['stats'].reached.items():
                d[1][k] = d[1].get(k, 0) + v
            d[2] += c['stats'].paths
        for name, (h, reached, paths) in by.items():
            if paths == 0:
                problems.append(f'{name}: no feasible path completed (vacuous)')
            for lb in h.labels:
                if not reached.get(lb):
                    problems.append(f'{name}: witness {lb!r} never reached (vacuous)')
        if problems:
            print(f'ERROR {prop}: ' + '; '.join(problems))
            rc = 2
    known = sorted(k[6:] for k in total.reached if k.startswith('known:'))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier='thorough' if tier == 'thorough' else 'quick',
        seed=int(os.environ.get('VERIF_SEED', 1)), level='other',
        coverage=dict(
            explanation=(
                'Bounded symbolic execution of the real functions from /repo with z3 deciding every '
                'branch and every property query; all feasible paths within the stated bounds were '
                'explored' if rc == 0 else 'run ended without a clean verdict'),
            paths=total.paths, infeasible_or_cut=total.cut, symbolic_branches=total.branches,
            solver_queries=total.queries, property_checks=total.checks,
            property_queries_discharged=total.unsat_checks, solver_s=round(total.solver_s, 2),
            functions_encoded=sorted(total.functions),
            harnesses=hsum, samples=total.samples[:4],
            exhaustive_within_bounds=(rc == 0), known_findings=known, exit=rc, problems=problems,
        ),
        assumptions=meta.get('assumptions', []),
        wall_s=round(wall, 2), violations=1 if rc == 1 else 0,
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop} {tier}: exit {rc}; paths={total.paths} cut={total.cut} queries={total.queries} '
          f'checks={total.checks} unsat={total.unsat_checks} solver={total.solver_s:.1f}s wall={wall:.1f}s')
    for d in hsum:
        print(f"   {d['harness']} {d['params']}: paths={d['paths']} cut={d['infeasible_or_cut']} "
              f"queries={d['queries']} checks={d['property_checks']} reached={d['reached']}")
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {H.findings(prop)[k]}')
    if line:
        print(line)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()

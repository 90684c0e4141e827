"""Deductive verifier driver:  python3-vt dv/prove.py C07 [--out FILE] [--budget SECONDS] [--only CONTRACT] [-v]

Runs every contract of dv/contracts/cNN.py over the functions of the repository's current source (see dv/xform.py)
and discharges the obligations.  A contract is a function c(E, load): it builds symbolic inputs that satisfy the
precondition, calls the real function and states the postcondition with E.prove(name, formula)."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(6000)

from dv import core, stubs, xform   # noqa: E402

BASE_ASSUMPTIONS = [
    'machine arithmetic: floats and float64 arrays are treated as mathematical reals (a NaN flag is tracked), '
    'numpy integers as unbounded integers',
    'the interpreter executing the transformed source behaves as CPython; transformation rules are in dv/xform.py',
]


def run_one(args):
    r = explore(args)
    bad = set(v['obligation'] for v in r['vcs'] if v['status'] == 'failed')
    if bad:
        # a refutation counts if a second run with other solver seeds and longer limits has it again
        r2 = explore(args, slow=3)
        again = set(v['obligation'] for v in r2['vcs'] if v['status'] == 'failed')
        for v in r['vcs']:
            if v['status'] == 'failed' and v['obligation'] not in again:
                v['status'] = 'undecided'
        r['solver_s'] += r2['solver_s']
        r['wall'] += r2['wall']
    return r


def explore(args, slow=1):
    pid, name, budget, verbose = args
    mod = importlib.import_module('dv.contracts.' + pid.lower())
    c = dict((x['name'], x) for x in mod.CONTRACTS)[name]
    t0 = time.time()
    eng = core.Engine(budget=budget, query_ms=c.get('query_ms', 4000) * slow, slow=slow)
    core.set_engine(eng)

    def fn(E):
        ns = stubs.namespace()
        ns.update(c.get('stubs', lambda: {})())
        loader = xform.Loader(ns)
        E.loader = loader
        c['fn'](E, loader.load)
    try:
        eng.explore(name, fn, max_paths=c.get('max_paths', 4000))
    except BaseException as ex:   # engine defect: never a verdict
        eng.undecided.append({'obligation': name, 'reason': 'engine: %s: %s %s' % (
            type(ex).__name__, ex, traceback.format_exc()[-600:] if verbose else core.where(ex))})
    vcs = list(eng.vcs.values())
    for v in vcs:
        v.pop('run', None)
    und = list(eng.undecided)
    if not vcs and not und:
        und.append({'obligation': name, 'reason': 'no obligations generated'})
    names = set(v['obligation'].split('#')[0] for v in vcs)
    for o in c.get('expect', ()):
        if name + '/' + o not in names and not und:
            und.append({'obligation': name + '/' + o, 'reason': 'expected obligation was not generated'})
    covers = {k: bool(v) for k, v in eng.covers.items()}
    for o in c.get('cover', ()):
        covers.setdefault(name + '/' + o, False)
    if not any(covers.values()) and not und:
        und.append({'obligation': name, 'reason': 'vacuous: no reachable path'})
    for k, v in covers.items():
        if not v and not und:
            und.append({'obligation': k, 'reason': 'vacuous: not reached'})
    return {'contract': name, 'function': c['functions'], 'vcs': vcs, 'undecided': und, 'covers': covers,
            'solver_s': eng.solver_s, 'queries': eng.queries, 'paths': eng.paths,
            'assumptions': sorted(eng.assumptions) + list(c.get('assumptions', ())),
            'trusted': list(c.get('trusted', ())), 'back_ends': eng.back_ends, 'wall': time.time() - t0,
            'known': getattr(eng, 'known', {}), 'doc': c['doc']}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=200)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    mod = importlib.import_module('dv.contracts.' + a.pid.lower())
    todo = [(a.pid, c['name'], c.get('budget', a.budget), a.v) for c in mod.CONTRACTS
            if not a.only or a.only in c['name']]
    if a.jobs == 1 or len(todo) == 1:
        res = [run_one(t) for t in todo]
    else:
        with multiprocessing.get_context('fork').Pool(min(a.jobs, len(todo))) as pool:
            res = pool.map(run_one, todo, chunksize=1)
    d = {'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [], 'undecided': [], 'trusted_base': [],
         'assumptions': list(BASE_ASSUMPTIONS), 'solver_s': 0., 'known': {}, 'back_ends': {}, 'paths': 0, 'covers': {},
         'list': [], 'queries': 0}
    for r in res:
        for f in r['function']:
            if f not in d['functions']:
                d['functions'].append(f)
        st = {}
        for v in r['vcs']:
            d['obligations'] += 1
            d['discharged'] += v['status'] == 'discharged'
            e = st.setdefault(v['obligation'].split('#')[0], {'obligation': v['obligation'].split('#')[0], 'vcs': 0,
                                                              'discharged': 0})
            e['vcs'] += 1
            e['discharged'] += v['status'] == 'discharged'
            if v['status'] != 'discharged':
                lst = d['failed'] if v['status'] == 'failed' else d['undecided']
                x = {'obligation': v['obligation'], 'path': v['path'], 'reason': v['reason'], 'detail': v['detail']}
                if not any(y['obligation'] == x['obligation'] for y in lst):
                    lst.append(x)
        d['list'] += list(st.values())
        for u in r['undecided']:
            if not any(u == y for y in d['undecided']):
                d['undecided'].append(u)
        d['covers'].update(r['covers'])
        d['solver_s'] = round(d['solver_s'] + r['solver_s'], 2)
        d['paths'] += r['paths']
        d['queries'] += r['queries']
        d['known'].update(r['known'])
        for k, n in r['back_ends'].items():
            d['back_ends'][k] = d['back_ends'].get(k, 0) + n
        for k in ('assumptions', 'trusted'):
            t = d['assumptions' if k == 'assumptions' else 'trusted_base']
            for x in r[k]:
                if x not in t:
                    t.append(x)
        if a.v:
            print('%-40s %3d obligations %3d discharged %4d paths %5d queries %6.1f s (solver %.1f)' % (
                r['contract'], len(r['vcs']), sum(v['status'] == 'discharged' for v in r['vcs']), r['paths'],
                r['queries'], r['wall'], r['solver_s']))
    d['trusted_base'] += ['dv/core.py, dv/xform.py (verifier)', 'dv/stubs.py (contracts of numpy, scipy and obspy)',
                          'z3 4.x / cvc5 1.1 via Python bindings', 'CPython 3.12']
    if a.out:
        json.dump(d, open(a.out, 'w'), indent=1)
    if a.v or not a.out:
        for k in ('failed', 'undecided'):
            for x in d[k][:40]:
                print(k.upper(), x['obligation'], x.get('path', ''), str(x['reason'])[:900], x.get('detail', ''))
        print('%s: %d obligations, %d discharged, %d failed, %d undecided, %d paths, solver %.1f s, %s' % (
            a.pid, d['obligations'], d['discharged'], len(d['failed']), len(d['undecided']), d['paths'],
            d['solver_s'], d['back_ends']))
        print('covers', {k: v for k, v in d['covers'].items()})
    return 0


if __name__ == '__main__':
    sys.exit(main())

"""Run the oracle of one property:  python rt/run.py C07 --out res.json [--tier quick|thorough] [--seed N]
   replay one case:                 python rt/run.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from rt import base  # noqa


def describe(note):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:300])
            for k, v in note.items()}


def one(f, seed):
    """-> (status, message, note)"""
    import numpy as np
    rng = np.random.RandomState(seed)
    np.random.seed(seed)
    note = {}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                f(rng, note)
        return 'ok', '', note
    except base.Skip:
        return 'skip', '', note
    except base.Known as ex:
        return 'known', ex, note
    except base.Broken as ex:
        return 'broken', str(ex), note
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return 'broken', 'unexpected %s at %s: %s' % (type(ex).__name__, where, ex), note


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--out')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--budget', type=float, default=None)
    p.add_argument('--replay')
    p.add_argument('--only')
    p.add_argument('--shard', default='0/1', help='k/n: only every n-th input, starting with k')
    p.add_argument('--scale', type=float, default=None, help='factor for the number of inputs per case')
    a = p.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        a.prop = d['property']
    import rf
    assert os.path.abspath(rf.__file__).startswith(os.path.abspath(REPO) + os.sep), rf.__file__
    importlib.import_module('rt.' + a.prop.lower())
    cases = base.REG[a.prop]
    if a.replay:
        f = dict((c[0], c[1]) for c in cases)[d['case']]
        st, msg, note = one(f, d['seed'])
        print(st, msg)
        print(json.dumps(describe(note), indent=1))
        return 1 if st == 'broken' else 0
    t0 = time.time()
    budget = a.budget or (10 if a.tier == 'quick' else 300)
    shard, nshard = (int(x) for x in a.shard.split('/'))
    scale = a.scale or 1

    def number(c):
        n = c[2] if a.tier == 'quick' else c[3]
        return n if n <= 2 else int(n * scale)
    res = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'cases': [], 'violations': [], 'known': {}}
    total = 0
    state = [{'name': c[0], 'f': c[1], 'n': number(c), 'run': 0, 'skip': 0, 'i': shard,
              'samples': [], 'doc': (c[1].__doc__ or '').strip()} for c in cases
             if not a.only or c[0] == a.only]
    live = list(state)
    keys = set()
    while live:
        for s in list(live):
            i = s['i']
            if i >= s['n'] or (time.time() - t0 > budget and i >= nshard):
                live.remove(s)
                continue
            if any(v['case'] == s['name'] for v in res['violations']):
                live.remove(s)
                continue
            s['i'] += nshard
            seed = zlib.crc32(('%s/%s/%d/%d' % (a.prop, s['name'], a.seed, i)).encode()) & 0x7fffffff
            st, msg, note = one(s['f'], seed)
            if st == 'skip':
                s['skip'] += 1
                continue
            s['run'] += 1
            d = describe(note)
            keys.add((s['name'], json.dumps(d, sort_keys=True)))
            if len(s['samples']) < 2:
                s['samples'].append(d)
            if st == 'known':
                res['known'].setdefault(msg.key, str(msg))
            elif st == 'broken':
                res['violations'].append({'case': s['name'], 'seed': seed, 'message': msg, 'input': d})
    res['cases'] = [{k: s[k] for k in ('name', 'doc', 'n', 'run', 'skip', 'samples')} for s in state]
    res['evaluations'] = sum(s['run'] for s in state)
    res['distinct'] = len(keys)
    res['keys'] = sorted('%08x' % zlib.crc32(repr(k).encode()) for k in keys)
    res['wall_s'] = round(time.time() - t0, 2)
    txt = json.dumps(res, indent=1)
    if a.out:
        open(a.out, 'w').write(txt)
    else:
        for c in res['cases']:
            print('%-40s run %d skip %d of %d' % (c['name'], c['run'], c['skip'], c['n']))
        for v in res['violations']:
            print('BROKEN', v)
        for k, v in res['known'].items():
            print('KNOWN', k, v)
        print('wall', res['wall_s'], 'evaluations', res['evaluations'], 'distinct', res['distinct'])
    return 0


if __name__ == '__main__':
    sys.exit(main())

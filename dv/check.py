"""Decide one property:  python3-vt dv/check.py C07

Runs, in parallel, the deductive verifier over the contracts of the property
(dv/contracts/cNN.py, if present) and the executable contracts (rt/cNN.py) on
generated inputs of the real code.  Writes evidence/<id>.json.

exit 0  held on everything explored, exit 1  VIOLATION line, exit 2  no answer
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def real_python():
    if os.environ.get('PY'):
        return os.environ['PY']
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; echo $PY'],
                             stdout=subprocess.PIPE, timeout=30).stdout.decode().strip()
        if out:
            return out
    except Exception:
        pass
    return '/opt/venv/bin/python'


def known_findings():
    known = {}
    fname = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fname):
        for line in open(fname):
            w = line.split()
            if len(w) > 3 and w[0] == 'known:':
                d = dict(x.split('=', 1) for x in w[1:3])
                known[(d['property'], d['key'])] = line.split(None, 3)[3].strip()
    return known


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    quick = tier == 'quick'
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    work = os.path.join(ev_dir, 'work', pid)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        if os.path.isfile(os.path.join(work, f)):
            os.remove(os.path.join(work, f))
    for f in os.listdir(os.path.join(ev_dir, 'replay')):
        if f.startswith(pid + '-') or f == pid + '.json':
            os.remove(os.path.join(ev_dir, 'replay', f))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', VERIF_REPO=REPO,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    py = real_python()
    nshard = 4
    budget = 20 if quick else 300
    limit = 240 if quick else 800
    procs = []
    for k in range(nshard):
        out = os.path.join(work, 'oracle%d.json' % k)
        log = open(os.path.join(work, 'oracle%d.log' % k), 'wb')
        procs.append((out, subprocess.Popen(
            [py, os.path.join(VERIF, 'rt', 'run.py'), pid, '--out', out, '--tier', tier,
             '--seed', str(seed), '--budget', str(budget), '--shard', '%d/%d' % (k, nshard),
             '--scale', '8' if quick else '4'],
            stdout=log, stderr=log, cwd=work, env=env)))
    pout, prover = os.path.join(work, 'prover.json'), None
    if os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')):
        log = open(os.path.join(work, 'prover.log'), 'wb')
        prover = subprocess.Popen([sys.executable, os.path.join(HERE, 'prove.py'), pid, '--out', pout,
                                   '--tier', tier, '--budget', '200' if quick else '700'],
                                  stdout=log, stderr=log, cwd=work, env=env)
    for out, pr in procs + ([(pout, prover)] if prover else []):
        try:
            pr.wait(max(1, t0 + limit - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()

    # ---- executable contracts
    violations, known, cases, keys, evaluations, broken_shards = [], {}, {}, set(), 0, 0
    for out, pr in procs:
        try:
            d = json.load(open(out))
        except Exception:
            broken_shards += 1
            continue
        violations += d['violations']
        known.update(d['known'])
        keys.update(d['keys'])
        evaluations += d['evaluations']
        for c in d['cases']:
            e = cases.setdefault(c['name'], {'case': c['name'], 'contract': c['doc'], 'inputs': 0,
                                             'outside_precondition': 0, 'samples': []})
            e['inputs'] += c['run']
            e['outside_precondition'] += c['skip']
            if len(e['samples']) < 2:
                e['samples'] += c['samples'][:1]

    # ---- verifier
    proof = None
    if prover:
        try:
            proof = json.load(open(pout))
        except Exception:
            tail = open(os.path.join(work, 'prover.log'), errors='replace').read()[-2000:]
            proof = {'functions': [], 'obligations': 0, 'discharged': 0, 'failed': [],
                     'undecided': [{'obligation': 'verifier run', 'reason': 'no result: ' + tail}],
                     'trusted_base': [], 'assumptions': [], 'solver_s': 0, 'known': {}}
        known.update(proof.get('known') or {})

    lines, code = [], 0
    listed = known_findings()
    for key, msg in sorted(known.items()):
        if (pid, key) in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[(pid, key)]))
        else:
            violations.append({'case': key, 'seed': None, 'message': 'not listed: ' + msg, 'input': None})
    failed = proof['failed'] if proof else []
    replay = os.path.join(ev_dir, 'replay', pid + '.json')
    if violations:
        v = violations[0]
        json.dump({'property': pid, 'case': v['case'], 'seed': v['seed'], 'message': v['message'],
                   'input': v['input'], 'how': '%s rt/run.py --replay <this file>' % py,
                   'all': violations, 'failed_obligations': failed,
                   'undecided_obligations': proof['undecided'] if proof else []},
                  open(replay, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
        for v in violations[:5]:
            print('%s: %s' % (v['case'], v['message']))
        code = 1
    elif failed:
        json.dump({'property': pid, 'failed_obligations': failed,
                   'note': 'no failing input found by the executable contracts'},
                  open(replay, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        code = 1
    for f in failed[:5]:
        print('FAILED OBLIGATION %s: %s' % (f['obligation'], str(f.get('reason', ''))[:600]))
    if proof:
        for f in proof['undecided'][:8]:
            print('undecided %s: %s' % (f['obligation'], str(f.get('reason', ''))[:300]))
    if not code and broken_shards and (broken_shards == nshard or evaluations == 0):
        print('no answer: the executable contracts of %s did not run' % pid)
        sys.stdout.write(open(os.path.join(work, 'oracle0.log'), errors='replace').read()[-2000:])
        code = 2

    man = {}
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        man = dict((c['property'], c) for c in m['checks']).get(pid, {})
    except Exception:
        pass
    level = man.get('level', 'exploration')
    if level == 'proof' and (not proof or proof['undecided'] or not proof['obligations']):
        level = 'exploration'       # this run did not discharge everything
    samples = [{'case': c['case'], 'input': s} for c in cases.values() for s in c['samples'][:1]][:12]
    rule = ('executable contracts evaluated on the real code for seeded random inputs; an input counts if it '
            'satisfies the precondition and its description differs from all others')
    cov = {}
    if proof:
        cov.update({'obligations': proof['obligations'], 'discharged': proof['discharged'],
                    'checker_cmd': 'python3-vt dv/prove.py %s' % pid,
                    'trusted_base': proof['trusted_base'], 'functions_under_contract': proof['functions'],
                    'undecided': proof['undecided'], 'failed': failed, 'back_ends': proof.get('back_ends', {}),
                    'solver_s': proof['solver_s'], 'paths': proof.get('paths'),
                    'vacuity_covers': proof.get('covers'),
                    'proof_obligations': proof.get('list', [])})
    if level == 'proof':
        cov['bounded'] = {'note': 'bounded stand-in, not counted as proved', 'evaluations': evaluations,
                          'distinct_nontrivial': len(keys), 'rule': rule, 'samples': samples,
                          'cases': list(cases.values())}
    else:
        cov.update({'evaluations': evaluations, 'distinct_nontrivial': len(keys), 'rule': rule,
                    'samples': samples, 'cases': list(cases.values()), 'exhaustive': False})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (proof or {}).get('assumptions', []) + [
              'executable contracts: bounded, %d generated inputs of this run' % evaluations],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + (len(failed) if code else 0)}
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d inputs (%d distinct) in %d cases%s, %.1f s' % (
        pid, tier, evaluations, len(keys), len(cases),
        '; %d of %d obligations discharged' % (proof['discharged'], proof['obligations']) if proof else '',
        time.time() - t0))
    for li in lines:
        print(li)
    return code


if __name__ == '__main__':
    sys.exit(main())

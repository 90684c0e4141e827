"""Make or confirm a planted change:  python3 tools/mkseed.py SPEC.py | --confirm ID...

SPEC.py defines a list `seeds` of dicts id, property, edits [(file, old, new)], needs, breaks, demo (Python source).
A change is confirmed in a scratch worktree: it applies, the stable tests pass with it, and the demonstration exits
0 without and nonzero with the change.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    sh('cp -a /repo %s/repo' % d)
    return d


def tests(repo):
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, OMP_NUM_THREADS='1',
               PYTHONNOUSERSITE='1', PYTHONHASHSEED='0')
    r = sh('cd %s && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o python_functions=__none__ --timeout=300 rf/tests 2>&1 | tail -12' % repo, env=env)
    out = r.stdout.decode()
    return out


def confirm(sid):
    folder = os.path.join(V, 'seeded', sid)
    d = copy()
    repo = d + '/repo'
    try:
        r = sh('bash %s/demo.sh' % folder, cwd=repo, timeout=300)
        if r.returncode:
            return 'demo fails without the change: ' + r.stdout.decode()[-800:]
        r = sh('git apply %s/patch.diff' % folder, cwd=repo)
        if r.returncode:
            return 'does not apply ' + r.stdout.decode()
        r = sh('bash %s/demo.sh' % folder, cwd=repo, timeout=300)
        if not r.returncode:
            return 'demo passes with the change'
        last = r.stdout.decode().strip().split('\n')[-1]
        t = tests(repo)
        m = re.search(r'(\d+) passed', t)
        if 'failed' in t or not m or int(m.group(1)) < 32:
            return 'tests: ' + ' / '.join(l for l in t.split('\n') if l.startswith(('FAILED', 'ERROR')) or 'passed' in l)
        base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.decode().split()[0]
        return 'ok (%s; %s)' % (last[:150], t.strip().split('\n')[-1])
    finally:
        shutil.rmtree(d)


def make(s):
    d = copy()
    repo = d + '/repo'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            txt = open(p).read()
            if txt.count(old) != 1:
                return '%s: %d matches of %r' % (s['id'], txt.count(old), old)
            open(p, 'w').write(txt.replace(old, new))
        diff = sh('git diff', cwd=repo).stdout.decode()
    finally:
        shutil.rmtree(d)
    # removed lines have to be original ones
    orig = set(l for f, _, _ in s['edits'] for l in sh('git -C /repo show $(git -C /repo rev-list --max-parents=0 HEAD):%s' % f).stdout.decode().split('\n'))
    touched = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    if not any(l in orig and l.strip() for l in touched):
        print('  note: no original line removed', touched)
    folder = os.path.join(V, 'seeded', s['id'])
    os.makedirs(folder, exist_ok=True)
    open(folder + '/patch.diff', 'w').write(diff)
    open(folder + '/demo.sh', 'w').write(DEMO)
    os.chmod(folder + '/demo.sh', 0o755)
    open(folder + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(folder + '/meta.json', 'w'), indent=1)
    r = confirm(s['id'])
    if not r.startswith('ok'):
        os.makedirs('/tmp/badseed', exist_ok=True)
        shutil.rmtree('/tmp/badseed/' + s['id'], ignore_errors=True)
        shutil.move(folder, '/tmp/badseed/' + s['id'])
    return '%s: %s' % (s['id'], r)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    if sys.argv[1] == '--confirm':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        with ThreadPoolExecutor(6) as ex:
            for i, r in zip(ids, ex.map(confirm, ids)):
                print(i, r)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        only = sys.argv[2:]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, [s for s in ns['seeds'] if not only or s['id'] in only]):
                print(r)

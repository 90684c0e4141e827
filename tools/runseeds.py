"""Run the check of each planted change's property in a scratch copy:  python3 tools/runseeds.py [ID...]
(VERIF_REPO points the check to the copy; the registered checks always use /repo)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(sid):
    folder = os.path.join(V, 'seeded', sid)
    prop = json.load(open(folder + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='rs')
    try:
        subprocess.run('cp -a /repo %s/repo && cp -a %s %s/verif && cd %s/repo && git apply %s/patch.diff'
                       % (d, V, d, d, folder), shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_TIER='quick', VERIF_SEED='1')
        r = subprocess.run(['bash', d + '/verif/check.sh', prop], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        kind = 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in out else 'MISSED (%d)' % r.returncode
        fo = [x.split(':')[0][18:] for x in out.split('\n') if x.startswith('FAILED OBL')]
        un = len([x for x in out.split('\n') if x.startswith('undecided')])
        lines = out.strip().split('\n')
        return '%-16s %s %s%s%s  | %s' % (sid, prop, kind, ' no-input' if 'no-failing-input' in out else '',
                                        ' failed=%s undecided=%d' % (sorted(set(fo))[:3], un), lines[0][:110])
    finally:
        shutil.rmtree(d)


RES = os.path.join(V, 'tools', 'seedresults.txt')
res = {x.split()[0]: x.rstrip() for x in open(RES)} if os.path.exists(RES) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(run, ids):
        print(r, flush=True)
        res[r.split()[0]] = r
open(RES, 'w').write('\n'.join(res[k] for k in sorted(res) if os.path.isdir(os.path.join(V, 'seeded', k))) + '\n')

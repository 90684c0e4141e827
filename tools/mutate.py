"""Systematic mutants of /repo/rf:  python3 tools/mutate.py OUT.jsonl [--n N] [--seed S] [--jobs J] [--files a.py,b.py]

Each mutant is a scratch copy of /repo with one small change.  It is run through the stable tests; if they pass, the
executable contracts of the properties of the changed function are run on it, and where none of them objects the
deductive proofs.  One JSON line per mutant: file, line, before, after, tests, killed_by.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
PROPS = [  # file, function pattern, properties
    ('batch.py', r'^(_Dummy|_create|write|iter_event|_iter_profile)', 'C23 C22'),
    ('batch.py', r'^(load_func|init_data|Config|run|Parse)', 'C22'),
    ('deconvolve.py', r'^deconvolve', 'C10 C08'), ('deconvolve.py', r'find_nearest', 'C10'),
    ('deconvolve.py', r'^deconv_waterlevel', 'C12'), ('deconvolve.py', r'get_length|add_zeros|corrt|deconv_time', 'C11'),
    ('deconvolve.py', r'gauss_filter|phase_shift|apply_filter', 'C12 C13'), ('deconvolve.py', r'iterative', 'C13'),
    ('deconvolve.py', r'multitaper', 'C27'), ('harmonics.py', r'', 'C21'), ('imaging.py', r'', 'C25'),
    ('profile.py', r'box', 'C19 C20'), ('profile.py', r'^profile', 'C20'),
    ('rfstream.py', r'event|obj2stats|rfstats', 'C03 C04'),
    ('rfstream.py', r'SAC|read_rf|format|RFTrace\.__init__|RFStream\.__init__', 'C01'),
    ('rfstream.py', r'write', 'C02 C01'), ('rfstream.py', r'type|method|is_set|unique', 'C08 C10 C09'),
    ('rfstream.py', r'trim2|slice2|seconds2utc', 'C07'), ('rfstream.py', r'\.rf$', 'C08 C09'),
    ('rfstream.py', r'deconvolve', 'C08 C24 C10'), ('rfstream.py', r'moveout', 'C14 C15'),
    ('rfstream.py', r'ppoints', 'C17'), ('rfstream.py', r'stack', 'C18'), ('rfstream.py', r'harmonics', 'C21'),
    ('rfstream.py', r'profile', 'C20'), ('rfstream.py', r'plot', 'C25'),
    ('simple_model.py', r'load_model', 'C15 C26'), ('simple_model.py', r'interp|__init__', 'C26'),
    ('simple_model.py', r'vertical|delay', 'C16 C15'), ('simple_model.py', r'moveout', 'C14'),
    ('simple_model.py', r'ppoint', 'C17'), ('util.py', r'stations|iter_event_data', 'C06'),
    ('util.py', r'metadata', 'C23'), ('util.py', r'Iter', 'C05'), ('util.py', r'geodetic', 'C17 C19'),
    ('util.py', r'minimal', 'C15'), ('util.py', r'processing', 'C24')]


def props(fname, func):
    for f, pat, ps in PROPS:
        if f == fname and re.search(pat, func):
            return ps.split()
    return []


class Finder(ast.NodeVisitor):
    """all (function, node path) with possible mutations"""

    def __init__(self):
        self.stack, self.out = [], []

    def visit(self, node):
        named = isinstance(node, (ast.FunctionDef, ast.ClassDef))
        if named:
            self.stack.append(node.name)
        if self.stack:
            for k in range(count(node)):
                self.out.append(('.'.join(self.stack), node, k))
        for c in ast.iter_child_nodes(node):
            if isinstance(node, ast.FunctionDef) and c in node.decorator_list:
                continue
            self.visit(c)
        if named:
            self.stack.pop()


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv]}
COPY = ('copy', 'deepcopy', 'abs', 'upper', 'lower', 'conj', 'conjugate', 'sorted', 'list', 'max', 'min')


def variants(n):
    """replacement nodes (None: delete the statement)"""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [o()]
            out.append(m)
    if isinstance(n, (ast.BinOp, ast.AugAssign)):
        for o in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = o()
            out.append(m)
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        out.append(m)
        for i in range(len(n.values)):
            m = copy.deepcopy(n)
            del m.values[i]
            out.append(m if len(m.values) > 1 else m.values[0])
    if isinstance(n, ast.UnaryOp):
        out.append(copy.deepcopy(n.operand))
    if isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            out.append(ast.Constant(not v))
        elif isinstance(v, (int, float)):
            out.append(ast.Constant(v + 1))
            if v:
                out.append(ast.Constant(-v))
        elif v is None:
            out.append(ast.Constant(0))
        elif isinstance(v, str) and len(v) < 20:
            out.append(ast.Constant(v + 'x'))
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Return)) and not (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        out.append(None)
    if isinstance(n, (ast.Continue, ast.Break)):
        out.append(ast.Pass())
    if isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            out.append(m)
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
        if nm in COPY:
            if len(n.args) == 1:
                out.append(copy.deepcopy(n.args[0]))
            elif isinstance(n.func, ast.Attribute) and not n.args:
                out.append(copy.deepcopy(n.func.value))
        if len(n.args) > 1:
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            out.append(m)
    if isinstance(n, ast.Slice):
        for a in ('lower', 'upper'):
            if getattr(n, a) is not None:
                m = copy.deepcopy(n)
                setattr(m, a, None)
                out.append(m)
    if isinstance(n, ast.If):
        for v in (True, False):
            m = copy.deepcopy(n)
            m.test = ast.Constant(v)
            out.append(m)
    if isinstance(n, ast.IfExp):
        out += [copy.deepcopy(n.body), copy.deepcopy(n.orelse)]
    return out


def count(n):
    return len(variants(n))


def mutants(fname):
    src = open('/repo/rf/' + fname).read()
    tree = ast.parse(src)
    f = Finder()
    f.visit(tree)
    lines = src.split('\n')
    off = [0]
    for li in lines:
        off.append(off[-1] + len(li.encode()) + 1)
    raw = src.encode()
    out = []
    for func, node, k in f.out:
        if isinstance(node, ast.Slice) or not hasattr(node, 'lineno'):
            pass
        m = variants(node)[k]
        a, b = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
        if isinstance(node, ast.If):
            a, b, m = (off[node.test.lineno - 1] + node.test.col_offset,
                       off[node.test.end_lineno - 1] + node.test.end_col_offset, m.test)
        try:
            new = 'pass' if m is None else ast.unparse(m)
        except Exception:
            continue
        if isinstance(node, ast.expr) and not isinstance(node, (ast.Constant, ast.Call, ast.Slice)):
            new = '(' + new + ')'
        txt = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            if ast.dump(ast.parse(txt)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        out.append(dict(file=fname, func=func, line=node.lineno, before=raw[a:b].decode()[:120], after=new[:120], text=txt))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def evaluate(m):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    res = {k: v for k, v in m.items() if k != 'text'}
    res['props'] = props(m['file'], m['func'])
    try:
        repo = d + '/repo'
        sh('cp -a /repo %s && rm -rf %s/.git' % (repo, repo))
        open(repo + '/rf/' + m['file'], 'w').write(m['text'])
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', VERIF_REPO=repo)
        try:
            r = sh('cd %s && timeout 150 %s -m pytest -x -q -p no:cacheprovider -o python_functions=__none__ rf/tests 2>&1 | tail -3' % (repo, PY),
                   env=env)
        except Exception as ex:
            res['tests'] = str(ex)
            return res
        t = r.stdout.decode()
        mm = re.search(r'(\d+) passed', t)
        if 'failed' in t or 'error' in t or not mm or int(mm.group(1)) < 32:
            res['tests'] = 'fail'
            return res
        res['tests'], res['killed_by'], res['how'] = 'pass', None, ''
        env.pop('PYTHONPATH')
        for p in res['props']:
            o = d + '/o.json'
            r = sh('cd %s && timeout 200 %s %s/rt/run.py %s --out %s --tier quick --seed 1 --budget 25 --shard 0/1 --scale 8' % (d, PY, V, p, o), env=env)
            try:
                v = json.load(open(o))['violations']
                if v:
                    res['killed_by'], res['how'] = p, 'oracle ' + v[0]['case'] + ': ' + v[0]['message'][:150]
                    return res
            except Exception:
                res['how'] += ' oracle %s gave nothing;' % p
        for p in res['props']:
            if not os.path.exists(V + '/dv/contracts/%s.py' % p.lower()):
                continue
            o = d + '/p.json'
            r = sh('cd %s && timeout 400 python3-vt -W ignore %s/dv/prove.py %s --out %s --jobs 1 --budget 200' % (d, V, p, o), env=env)
            try:
                j = json.load(open(o))
                if j['failed']:
                    res['killed_by'], res['how'] = p, 'proof ' + j['failed'][0]['obligation']
                    return res
                if j['undecided']:
                    res['how'] += ' %s undecided: %s;' % (p, j['undecided'][0]['reason'][:150])
            except Exception:
                res['how'] += ' proof %s gave nothing;' % p
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--n', type=int, default=0)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--jobs', type=int, default=6)
    p.add_argument('--files', default='batch.py,deconvolve.py,harmonics.py,profile.py,rfstream.py,simple_model.py,util.py,imaging.py')
    p.add_argument('--list', action='store_true')
    a = p.parse_args()
    ms = []
    for f in a.files.split(','):
        ms += mutants(f)
    done = set()
    if os.path.exists(a.out):
        for li in open(a.out):
            j = json.loads(li)
            done.add((j['file'], j['line'], j['before'], j['after']))
    random.Random(a.seed).shuffle(ms)
    ms = [m for m in ms if (m['file'], m['line'], m['before'], m['after']) not in done and props(m['file'], m['func'])]
    print(len(ms), 'mutants')
    if a.n:
        ms = ms[:a.n]
    if a.list:
        for m in ms:
            print(m['file'], m['line'], repr(m['before'][:60]), '->', repr(m['after'][:60]))
        return
    os.makedirs('/tmp/mut', exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as f:
        for r in ex.map(evaluate, ms):
            f.write(json.dumps(r) + '\n')
            f.flush()


main()

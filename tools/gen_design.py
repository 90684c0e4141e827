"""Writes /verif/DESIGN.md: design_head.md + planted changes + contracts read from dv/contracts and rt (python3-vt)."""
import glob
import importlib
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
res = {}
if os.path.exists(V + '/tools/seedresults.txt'):
    for li in open(V + '/tools/seedresults.txt'):
        res[li.split()[0]] = li
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    sid = f.split('/')[-2]
    m = json.load(open(f))
    r = res.get(sid, '')
    by = []
    if 'CAUGHT' in r:
        if 'no-input' not in r:
            by.append('executable contract `%s`' % r.split('| ')[-1].split(':')[0].strip())
        fo = re.search(r'failed=(\[.*?\])', r)
        if fo and fo.group(1) != '[]':
            by.append('obligation ' + ', '.join('`%s`' % x.split('#')[0] for x in re.findall(r"'(.*?)'", fo.group(1))[:2]))
    rows.append('| %s | %s | %s | %s |' % (sid, m['what_it_breaks'], m['needs'], '; '.join(by) or ('not caught' if r else '?')))
out = [head.replace('SEEDTABLE', '\n'.join(rows)), open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else '',
       '## Appendix: contracts per property (generated by tools/gen_design.py)\n']
for li in open(V + '/properties.jsonl'):
    p = json.loads(li)
    out.append('### %s %s\n' % (p['id'], p['title']))
    c = p['id'].lower()
    if os.path.exists(V + '/dv/contracts/%s.py' % c):
        mod = importlib.import_module('dv.contracts.' + c)
        ass = []
        for k in mod.CONTRACTS:
            out.append('* **%s** (%s): %s' % (k['name'], ', '.join('`%s`' % x for x in k['functions']), ' '.join(k['doc'].split())))
            ass += [a for a in k.get('assumptions', ()) if a not in ass]
        for a in ass:
            out.append('* assumed: ' + ' '.join(a.split()))
    src = open(V + '/rt/%s.py' % c).read()
    cases = re.findall(r'@case\(?.*?\n(?:@.*\n)*def (\w+)\(.*?\):\n\s+"""(.*?)"""', src, re.S)
    for n, d in cases:
        out.append('* bounded **%s**: %s' % (n, ' '.join(d.split())))
    out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))

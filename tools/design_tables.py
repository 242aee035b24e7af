"""Rewrites the generated tables of DESIGN.md between their markers."""
import json, glob, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools')
import refactor
seeds = {}
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['what_it_breaks']))
s = '| check that catches it | planted bugs |\n|---|---|\n'
for p in sorted(seeds):
    s += '| %s | %s |\n' % (p, '; '.join('`%s`: %s' % (i, w.strip().rstrip('.').replace('|', '/')) for i, w in seeds[p]))
refactor.load()
r = ''
by = {}
for i, (c, e) in refactor.R.items():
    for f in sorted({x[1] if x[0] == 'fn' else x[0] for x in e}): by.setdefault(f, []).append(i)
r = '| file | edits |\n|---|---|\n' + ''.join('| %s | %s |\n' % (f, ', '.join(v)) for f, v in sorted(by.items()))
f = '# defects\n'
k = []
for l in open(R + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: k.append('* %s (%s): %s' % m.groups())
t = open(R + '/DESIGN.md').read()
for name, txt in (('SEEDS', s), ('REFACTORINGS', r), ('DEFECTS', '\n'.join(k) + '\n')):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->' % name
    i = t.index(a) + len(a)
    t = t[:i] + txt + t[t.index(b):]
open(R + '/DESIGN.md', 'w').write(t)
print(sum(map(len, seeds.values())), len(refactor.R), len(k))

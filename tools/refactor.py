"""Edits that keep the behaviour, to see that the checks stay quiet on them.
No check reads this file.

  refactor.py [ID...]   scratch copy: build, tests, demos of seeded/, checks
"""
import os, sys, glob, re, json, tempfile, shutil, importlib.util, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedgen
from seedgen import sh, build, TESTS, ROOT
R = {}
AREA = {
    'coding': 'C01 C02 C03', 'logging': 'C04 C05', 'slice': 'C06', 'status': 'C07', 'hash': 'C08', 'random': 'C09',
}

def ref(rid, checks, edits):
    assert rid not in R, rid
    R[rid] = (checks.split(), edits)

def fn(file, start, new):
    """Replaces the function whose text begins with `start` (to its closing brace)."""
    return ('fn', file, start, new)

def body_end(t, i):
    d = 0
    j = i
    while True:
        c = t[j]
        if c == '{': d += 1
        elif c == '}':
            d -= 1
            if d == 0: return j + 1
        j += 1

def apply(edits, repo):
    files = {}
    for e in edits:
        f = e[1] if e[0] == 'fn' else e[0]
        t = files.get(f)
        if t is None: t = open(os.path.join(repo, f)).read()
        if e[0] == 'fn':
            if t.count(e[2]) != 1: raise SystemExit('%s: %d matches of %r' % (f, t.count(e[2]), e[2]))
            i = t.index(e[2])
            t = t[:i] + e[3].strip('\n') + t[body_end(t, i):]
        else:
            if t.count(e[1]) != 1: raise SystemExit('%s: %d matches of %r' % (f, t.count(e[1]), e[1]))
            t = t.replace(e[1], e[2])
        files[f] = t
    return files

def load():
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/refactors/*.py'))):
        spec = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(spec)
        m.ref = ref; m.fn = fn
        spec.loader.exec_module(m)

def try_one(rid):
    checks, edits = R[rid]
    tmp = tempfile.mkdtemp(prefix='ref.', dir='/tmp')
    repo = tmp + '/repo'
    out = []
    try:
        sh('git clone -q /repo %s && cp -a /repo/third_party/. %s/third_party/' % (repo, repo), '/')
        fs = apply(edits, repo)
        for f, t in fs.items(): open(os.path.join(repo, f), 'w').write(t)
        rc, o = build(repo)
        if rc: return '%-28s BUILD FAILS\n%s' % (rid, o[-2500:])
        bad = []
        for t in TESTS:
            rc, o = sh('TEST_TMPDIR=%s ./%s' % (tmp, t), repo + '/_build')
            if rc: bad.append('test ' + t)
        for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
            d = os.path.dirname(m)
            if '--nodemo' in sys.argv: break
            if json.load(open(m))['property'] not in checks: continue
            rc, o = sh('bash %s/demo.sh' % d, repo)
            if rc: bad.append('demo %s <<%s>>' % (os.path.basename(d), o[-300:]))
        for c in checks:
            try: rc, o = sh('python3 run_check.py %s --repo %s' % (c, repo), ROOT, timeout=1500)
            except Exception as e: rc, o = 99, str(e)
            if rc: bad.append('%s rc=%d\n      %s' % (c, rc, '\n      '.join([l for l in o.splitlines() if not l.startswith('  ')][-6:])))
        out = '%-28s %s' % (rid, 'ok' if not bad else '\n   ' + '\n   '.join(bad))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

if __name__ == '__main__':
    load()
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(R)
    ids = [i for a in ids for i in R if i == a or (a.endswith('*') and i.startswith(a[:-1]))]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(try_one, ids): print(r, flush=True)

"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and
tries them.  No check reads this file or its output.

  seedgen.py gen            write all folders
  seedgen.py try [ID...]    scratch copy: build, tests, demo both ways, check
"""
import json, os, subprocess, sys, shutil, importlib.util, difflib, glob, tempfile, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'seeded')
SEEDS = {}

PRELUDE = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "demo: failed: %s (line %d)\n", #c, __LINE__); std::_Exit(1); } } while (0)
'''

DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo after the build. 0: behaves as it should.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r -- "$tmp"' EXIT
g++ -std=c++11 -g -w -DLSMDB_PLATFORM_POSIX=1 -DLSMDB_COMPILE_LIBRARY -I_build/include -I. -Iinclude %s "$here/demo.cc" %s -o "$tmp/demo" -lpthread -ldl || exit 2
cd "$tmp" || exit 2
TEST_TMPDIR="$tmp" timeout 120 ./demo
'''

def seed(sid, prop, needs, breaks, edits, demo=None, flags='', src='_build/liblsmdb.a', sh=None):
    assert sid not in SEEDS, sid
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                      flags=flags, src=src, sh=sh)

def load():
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.py'))):
        spec = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(spec)
        m.seed = seed
        spec.loader.exec_module(m)

def patched(s, repo='/repo'):
    files = {}
    for f, old, new in s['edits']:
        t = files.get(f)
        if t is None:
            t = open(os.path.join(repo, f)).read()
        if t.count(old) != 1:
            raise SystemExit('%s: %d matches of %r' % (f, t.count(old), old))
        files[f] = t.replace(old, new)
    return files

def gen(only=None):
    for sid, s in SEEDS.items():
        if only and sid not in only: continue
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        diff = ''
        for f, t in patched(s).items():
            a = open(os.path.join('/repo', f)).read()
            for l in difflib.unified_diff(a.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f):
                diff += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(s['sh'] or DEMO_SH % (s['flags'], s['src']))
        os.chmod(d + '/demo.sh', 0o755)
        if s['demo']:
            open(d + '/demo.cc', 'w').write(PRELUDE + s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)

def sh(cmd, cwd, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

TESTS = ['arena_test', 'cache_test', 'hash_test', 'logging_test', 'memenv_test', 'skiplist_test', 'status_test']

def build(repo):
    if not os.path.exists(repo + '/_build/build.ninja'):
        rc, o = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLSMDB_BUILD_TESTS=ON '
                   '-DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ '
                   '-DCMAKE_PROJECT_lsmdb_INCLUDE=/opt/vp/cmake/googletest_hook.cmake', repo)
        assert rc == 0, o
    return sh('ninja -C _build -j4', repo)

def try_one(sid, check=True):
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    repo = tmp + '/repo'
    out = [sid]
    try:
        sh('git clone -q /repo %s && cp -a /repo/third_party/. %s/third_party/' % (repo, repo), '/')
        rc, o = build(repo)
        assert rc == 0, o[-2000:]
        demo = os.path.join(OUT, sid, 'demo.sh')
        dd = tmp + '/d'
        shutil.copytree(os.path.join(OUT, sid), dd)
        for x in ('patch.diff', 'meta.json'): os.remove(dd + '/' + x)
        rc, o = sh('bash %s/demo.sh' % dd, repo)
        out.append('demo-clean=%d' % rc + ('' if rc == 0 else ' <<' + o[-600:] + '>>'))
        rc, o = sh('git apply %s' % os.path.join(OUT, sid, 'patch.diff'), repo)
        assert rc == 0, o
        rc, o = build(repo)
        out.append('build=%d' % rc + ('' if rc == 0 else o[-800:]))
        bad = []
        for t in TESTS:
            rc, o = sh('TEST_TMPDIR=%s ./%s' % (tmp, t), repo + '/_build')
            if rc: bad.append(t)
        out.append('tests=' + (','.join(bad) or 'pass'))
        rc, o = sh('bash %s/demo.sh' % dd, repo)
        out.append('demo-bug=%d' % rc + (' ' + o.strip()[-160:]))
        if check:
            pid = SEEDS[sid]['prop']
            rc, o = sh('python3 run_check.py %s --repo %s' % (pid, repo), ROOT)
            vs = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            out.append('CHECK rc=%d %s' % (rc, vs[:2]) + ('' if vs else o[-600:]))
    except AssertionError as e:
        out.append('FAIL ' + str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n   '.join(out)

if __name__ == '__main__':
    load()
    if sys.argv[1] == 'gen':
        gen()
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(SEEDS)
        ids = [i for a in ids for i in SEEDS if i == a or (a.endswith('*') and i.startswith(a[:-1]))]
        gen(set(ids))
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: try_one(i, '--nocheck' not in sys.argv), ids):
                print(r, flush=True)

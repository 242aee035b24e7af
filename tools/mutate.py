"""Systematic small changes to the repository's sources, to find what the
checks miss.  Run from a copy of /verif (evidence files are rewritten).

  mutate.py list [FILE...]            show the changes
  mutate.py run OUT.jsonl [FILE...]   build, run the tests, run the checks;
                                      appends one record per change
  mutate.py report OUT.jsonl          the ones nothing reported

A change that does not build or fails the existing tests is dropped.  What is
left unreported is read by hand: it either keeps the behaviour or shows a gap.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, difflib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'util/coding.cc': 'C01 C02 C03', 'util/coding.h': 'C01 C02 C03 C08', 'util/logging.cc': 'C04 C05',
    'util/hash.cc': 'C08', 'util/random.h': 'C09', 'util/arena.cc': 'C10 C11', 'util/arena.h': 'C10 C11',
    'util/status.cc': 'C07', 'include/lsmdb/status.h': 'C07', 'include/lsmdb/slice.h': 'C06 C02 C03 C05 C29',
    'util/cache.cc': 'C12 C13 C14 C15', 'db/skiplist.h': 'C16 C17',
    'helpers/memenv/memenv.cc': 'C18 C19 C20 C21 C30', 'util/env_posix.cc': 'C28 C22 C23 C24 C25 C26 C27 C32',
    'util/posix_logger.h': 'C31', 'util/env.cc': 'C29 C30 C31', 'include/lsmdb/env.h': 'C30',
    'port/port_stdcxx.h': 'C33', 'util/mutexlock.h': 'C33 C15', 'db/lsmdb_util.cc': 'C34', 'util/hash.h': 'C08',
}
REL = {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!='], '!=': ['=='],
       '&&': ['||'], '||': ['&&'], '++': ['--'], '--': ['++'], '+=': ['-=', '='], '-=': ['+='], '>>=': ['<<='],
       '<<': ['>>'], '>>': ['<<'], '|=': ['&='], '*=': ['+=']}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//.*|/\*.*?\*/|[A-Za-z_]\w*|0x[0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|<<=|>>=|->|::|\+\+|--|&&|\|\||<<|>>|[<>=!+\-*/%&|^]=|[^\s]')


def mutants(path, text):
    lines = text.split('\n')
    out = []
    def add(i, new, what):
        if new != lines[i]:
            t = lines[:]
            t[i] = new
            out.append((i + 1, what, '\n'.join(t)))
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if '*/' in s: incomment = False
            continue
        if s.startswith('/*') and '*/' not in s:
            incomment = True
            continue
        if not s or s[0] in '#/*' or s.startswith('case ') or 'assert' in s or s.startswith(('namespace', 'using', 'template', 'friend', 'class', 'struct', 'typedef')):
            continue
        toks = [(m.start(), m.group()) for m in TOK.finditer(l)]
        code = [t for t in toks if not t[1].startswith(('//', '/*'))]
        angle = re.search(r'(template|static_cast|reinterpret_cast|vector|atomic|function|shared_ptr|unique_ptr|numeric_limits|map|set|queue|unique_lock|SkipList|typename)\s*<', l)
        for p, t in code:
            if t in REL:
                if t in ('<', '>', '>>', '<<') and angle:
                    # only a comparison when spaces stand around it
                    if not (p > 0 and l[p - 1] == ' ' and l[p + len(t):p + len(t) + 1] == ' '):
                        continue
                for r in REL[t]:
                    add(i, l[:p] + r + l[p + len(t):], '%s -> %s' % (t, r))
            elif t in ('+', '-', '*', '/', '%', '&', '|', '^') and p and l[p - 1] == ' ' and l[p + 1:p + 2] == ' ':
                for r in {'+': '-', '-': '+', '*': '+', '/': '*', '%': '/', '&': '|', '|': '&', '^': '|'}[t]:
                    add(i, l[:p] + r + l[p + 1:], '%s -> %s' % (t, r))
            elif re.match(r'\d+[uUlL]*$', t) and not (p and l[p - 1] in '_.'):
                v = int(re.match(r'\d+', t).group())
                for r in sorted({v + 1, max(v - 1, 0), 0}):
                    if r != v: add(i, l[:p] + str(r) + t[len(str(v)):] + l[p + len(t):], '%s -> %d' % (t, r))
            elif re.match(r'0x', t):
                v = int(re.match(r'0x[0-9a-fA-F]+', t).group(), 16)
                for r in (v ^ 1, v >> 1):
                    add(i, l[:p] + hex(r) + re.sub(r'^0x[0-9a-fA-F]+', '', t) + l[p + len(t):], '%s -> %#x' % (t, r))
            elif t in ('true', 'false'):
                add(i, l[:p] + ('false' if t == 'true' else 'true') + l[p + len(t):], 'flip ' + t)
            elif t == '!' and l[p + 1:p + 2] not in ('=',):
                add(i, l[:p] + l[p + 1:], 'drop !')
            elif t.startswith("'") and len(t) == 3:
                for d in (1, -1):
                    add(i, l[:p] + "'%s'" % chr(ord(t[1]) + d) + l[p + len(t):], '%s %+d' % (t, d))
            elif t.startswith('"') and len(t) > 2 and t[1] != '%':
                add(i, l[:p] + '"' + t[2:] + l[p + len(t):], 'cut string')
            elif t.startswith('memory_order_') and t != 'memory_order_relaxed':
                add(i, l.replace(t, 'memory_order_relaxed'), 'relax')
            elif re.match(r'u?int(32|64)_t$', t):
                add(i, l[:p] + {'uint64_t': 'uint32_t', 'uint32_t': 'int32_t', 'int64_t': 'int32_t', 'int32_t': 'uint8_t'}[t] + l[p + len(t):], 'narrow ' + t)
            elif t in ('size_t', 'off_t') and p:
                q = p - 5 if l[max(p - 5, 0):p] == 'std::' else p
                add(i, l[:q] + 'unsigned short' + l[p + len(t):], 'narrow ' + t)
                add(i, l[:q] + 'int' + l[p + len(t):], 'narrow ' + t)
            elif t in ('uint8_t',):
                add(i, l[:p] + 'int8_t' + l[p + len(t):], 'sign')
            elif re.match(r'[OFPM]_[A-Z]+|MAP_\w+|PROT_\w+|SEEK_\w+|O_\w+', t):
                m = re.search(r'\s*\|\s*' + t + r'\b|\b' + t + r'\s*\|\s*', l)
                if m: add(i, l[:m.start()] + l[m.end():], 'drop ' + t)
        # statement deletion
        if s.endswith(';') and not re.match(r'(return|break|continue|else|\}|const |static |constexpr|struct |virtual |std::atomic|explicit|int \w+;|char \w+|uint\w+ \w+;)', s) \
                and s.count('(') == s.count(')') and not re.match(r'[\w:<>,*& ]+ [*&]?\w+( = .*)?;$', s):
            add(i, re.match(r'\s*', l).group() + ';', 'delete statement')
        if s in ('break;', 'continue;'):
            add(i, re.match(r'\s*', l).group() + ';', 'delete ' + s)
        m = re.match(r'(\s*(?:\} else )?)if \((.*)\) \{$', l)
        if m and '(' not in m.group(2).replace('()', ''):
            add(i, '%sif ((%s) && false) {' % (m.group(1), m.group(2)), 'never')
            add(i, '%sif ((%s) || true) {' % (m.group(1), m.group(2)), 'always')
        elif m:
            add(i, '%sif ((%s) && false) {' % (m.group(1), m.group(2)), 'never')
            add(i, '%sif ((%s) || true) {' % (m.group(1), m.group(2)), 'always')
        m = re.match(r'(\s*)while \((.*)\) \{$', l)
        if m:
            add(i, '%sif (%s) {' % (m.group(1), m.group(2)), 'while -> if')
        m = re.match(r'(\s*)return (.+);$', l)
        if m and m.group(2) not in ('true', 'false', 'status', 's', 'result'):
            if 'Error' in m.group(2) or 'NotFound' in m.group(2):
                add(i, '%sreturn Status::OK();' % m.group(1), 'return OK')
            if 'errno' in m.group(2):
                add(i, re.sub(r'\b\w*errno\b', 'ENOENT', l), 'errno')
        # two lines changed places
        if i + 1 < len(lines) and s.endswith(';') and lines[i + 1].strip().endswith(';') and s.count('(') == s.count(')') \
                and lines[i + 1].count('(') == lines[i + 1].count(')') and not re.match(r'(return|break|continue)', lines[i + 1].strip()) \
                and not re.match(r'(return|break|continue)', s):
            t = lines[:]
            t[i], t[i + 1] = t[i + 1], t[i]
            out.append((i + 1, 'swap with next', '\n'.join(t)))
    seen, res = set(), []
    for m in out:
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


# the checks for a place in a large file (by what the line is part of)
def checks_for(f, line, old):
    if f == 'util/env_posix.cc':
        part = {'class Limiter': 'C25', 'class PosixSequentialFile': 'C24 C25', 'class PosixRandomAccessFile': 'C24 C25', 'class PosixMmapReadableFile': 'C24 C25',
                'class PosixWritableFile': 'C22 C23 C25', 'int LockOrUnlock': 'C26', 'class PosixEnv ': 'C28 C25', 'Status NewRandomAccessFile': 'C24 C25 C28',
                'Status LockFile': 'C26', 'void Schedule': 'C27', 'Status GetTestDirectory': 'C32', 'Status NewLogger': 'C28 C25', 'uint64_t NowMicros': 'C32',
                'struct BackgroundWorkItem': 'C27', 'int MaxMmaps': 'C25 C28', 'PosixEnv::PosixEnv': 'C25 C27', 'class SingletonEnv': 'C32 C27', 'void EnvPosixTestHelper': 'C25',
                'bool FileExists': 'C28'}
    elif f == 'helpers/memenv/memenv.cc':
        part = {'class FileState': 'C18 C20 C21', 'class SequentialFileImpl': 'C18 C20', 'class NoOpLogger': 'C30', 'class InMemoryEnv': 'C19 C20 C21',
                'Status LockFile': 'C30 C20', 'Status GetTestDirectory': 'C30'}
    else:
        return FILES[f].split()
    r = FILES[f]
    for l in old.split('\n')[:line]:
        for k, v in part.items():
            if k in l: r = v
    return r.split()


def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


TESTS = ['arena_test', 'cache_test', 'hash_test', 'logging_test', 'memenv_test', 'skiplist_test', 'status_test']
local = threading.local()
counter = iter(range(1000))


def workdir():
    if not hasattr(local, 'repo'):
        n = next(counter)
        local.tmp = '/tmp/mut.%d.%d' % (os.getpid(), n)
        shutil.rmtree(local.tmp, ignore_errors=True)
        os.makedirs(local.tmp)
        local.repo = local.tmp + '/repo'
        sh('git clone -q /repo %s && cp -a /repo/third_party/. %s/third_party/' % (local.repo, local.repo), '/')
        rc, o = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLSMDB_BUILD_TESTS=ON '
                   '-DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ '
                   '-DCMAKE_PROJECT_lsmdb_INCLUDE=/opt/vp/cmake/googletest_hook.cmake && ninja -C _build', local.repo)
        assert rc == 0, o[-2000:]
    return local.repo


def one(job):
    f, line, what, text, old = job
    repo = workdir()
    p = os.path.join(repo, f)
    rec = dict(file=f, line=line, what=what, diff=[l for l in difflib.unified_diff(old.split('\n'), text.split('\n'), n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')])
    open(p, 'w').write(text)
    try:
        rc, o = sh('ninja -C _build', repo, 300)
        if rc:
            rec['r'] = 'nobuild'
            return rec
        for t in TESTS:
            rc, o = sh('TEST_TMPDIR=%s timeout 60 ./%s' % (local.tmp, t), repo + '/_build', 100)
            if rc:
                rec['r'] = 'tests'
                return rec
        rcs = {}
        for c in checks_for(f, line, old):
            rc, o = sh('python3 run_check.py %s --repo %s' % (c, repo), ROOT, 700)
            rcs[c] = rc
            if rc == 1:
                rec['r'] = 'caught'
                rec['by'] = c
                return rec
            if rc != 0: rec['out'] = o[-700:]
        rec['r'] = 'MISSED' if not any(rcs.values()) else 'NOANSWER'
        rec['rcs'] = rcs
        return rec
    finally:
        open(p, 'w').write(old)


def main():
    files = sys.argv[3:] if sys.argv[1] == 'run' else sys.argv[2:]
    files = files or list(FILES)
    if sys.argv[1] == 'report':
        n = {}
        for l in open(sys.argv[2]):
            r = json.loads(l)
            n[r['r']] = n.get(r['r'], 0) + 1
            if r['r'] in ('MISSED', 'NOANSWER'):
                print('%s %s:%d %s %s' % (r['r'], r['file'], r['line'], r['what'], r.get('rcs')))
                for d in r['diff']: print('      ' + d)
        print(n)
        return
    jobs = []
    for f in files:
        old = open(os.path.join('/repo', f)).read()
        jobs += [(f, i, w, t, old) for i, w, t in mutants(f, old)]
    if sys.argv[1] == 'list':
        for j in jobs: print(j[0], j[1], j[2])
        print(len(jobs))
        return
    if os.environ.get('SHUFFLE'):
        import random
        random.Random(int(os.environ['SHUFFLE'])).shuffle(jobs)
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['line'], r['what'], json.dumps(r['diff'])) for r in map(json.loads, open(out))}
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '5'))) as ex, open(out, 'a') as fo:
        def go(j):
            d = [l for l in difflib.unified_diff(j[4].split('\n'), j[3].split('\n'), n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
            if (j[0], j[1], j[2], json.dumps(d)) in done: return None
            return one(j)
        for r in ex.map(go, jobs):
            if r:
                fo.write(json.dumps(r) + '\n')
                fo.flush()


if __name__ == '__main__':
    main()

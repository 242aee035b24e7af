#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current sources.

usage: run_check.py ID [--tier quick|thorough] [--case NAME] [--keep] [--repo DIR]
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = LLVM + "clang++"
BUILD = os.path.join(HERE, "build")
BASE = ["-std=c++11", "-fno-exceptions", "-fno-rtti", "-DLSMDB_COMPILE_LIBRARY", "-DLSMDB_PLATFORM_POSIX=1"]
BCF = ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-strict-aliasing", "-Wno-everything", "-emit-llvm", "-c"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def build_engine():
    """(Re)build lsx and lsx-prep when their sources are newer than the binaries."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sorted(glob.glob(os.path.join(HERE, "engine", "*")))
        h = hashlib.sha256()
        for s in srcs:
            h.update(open(s, "rb").read())
        stamp = os.path.join(BUILD, "engine.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(os.path.join(BUILD, "lsx")):
            return
        e = os.path.join(HERE, "engine")
        cpp = subprocess.check_output([LLVM + "llvm-config", "--cppflags"], text=True).split()
        # the newer Z3 of the tooling venv where present, else the system one
        z3d = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"))
        lib = sorted(glob.glob(z3d[0] + "/lib/libz3.so*")) if z3d else []
        if lib and os.path.exists(z3d[0] + "/include/z3.h") and not os.environ.get("LSX_SYSTEM_Z3"):
            cpp = ["-I", z3d[0] + "/include"] + cpp
            z3l = [lib[0], "-Wl,-rpath," + os.path.dirname(lib[0])]
        else:
            z3l = ["-lz3"]
        cxx = ["g++", "-std=c++17", "-O2", "-fno-rtti"] + cpp
        jobs = [cxx + ["-c", f"{e}/{n}.cc", "-o", f"{BUILD}/{n}.o"] for n in ("lsx", "solver", "expr")]
        jobs.append(cxx[:2] + ["-O1", "-fno-rtti"] + cpp + [f"{e}/prep.cc", "-o", f"{BUILD}/lsx-prep", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(sh, jobs):
                if r.returncode:
                    die("engine build failed:\n" + r.stdout[-3000:])
        r = sh(["g++"] + [f"{BUILD}/{n}.o" for n in ("lsx", "solver", "expr")] + ["-o", f"{BUILD}/lsx", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"] + z3l)
        if r.returncode:
            die("engine link failed:\n" + r.stdout[-3000:])
        open(stamp, "w").write(h.hexdigest())


def gen_config(repo, inc):
    vals = {"HAVE_FDATASYNC": 1, "HAVE_O_CLOEXEC": 1}
    os.makedirs(f"{inc}/port", exist_ok=True)
    src = open(f"{repo}/port/port_config.h.in").read()
    src = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: f"#define {m.group(1)} {vals.get(m.group(1), 0)}", src)
    open(f"{inc}/port/port_config.h", "w").write(src + "\n")


def repo_sources(repo):
    out = []
    for d in ("util", "helpers/*", "db", "table", "port"):
        for f in sorted(glob.glob(f"{repo}/{d}/*.cc")):
            b = os.path.basename(f)
            if b.endswith("_test.cc") or b in ("test_util.cc", "lsmdb_util.cc", "testutil.cc"):
                continue
            if re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M):
                continue
            out.append(f)
    return out


class Ctx:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.inc = f"{work}/inc"
        gen_config(repo, self.inc)
        self.flags = BASE + ["-I", self.inc, "-I", repo, "-I", f"{repo}/include", "-I", f"{HERE}/lib", "-I", f"{HERE}/harness", "-I", f"{HERE}/lib/stub"]

    def compile_all(self, harnesses):
        jobs, self.lib = [], []
        for f in repo_sources(self.repo):
            o = f"{self.work}/r_{os.path.relpath(f, self.repo).replace('/', '_')}.bc"
            jobs.append((f, o))
            self.lib.append(o)
        for n in ("support", "models", "models_fs"):
            o = f"{self.work}/l_{n}.bc"
            jobs.append((f"{HERE}/lib/{n}.cc", o))
            self.lib.append(o)
        self.hbc = {}
        for h in harnesses:
            o = f"{self.work}/h_{h}.bc"
            jobs.append((f"{HERE}/harness/{h}.cc", o))
            self.hbc[h] = o
        def one(j):
            return j, sh([CLANG] + self.flags + BCF + [j[0], "-o", j[1]])
        with cf.ThreadPoolExecutor(8) as ex:
            for j, r in ex.map(one, jobs):
                if r.returncode:
                    die(f"cannot compile {j[0]}:\n" + r.stdout[-4000:])
        self.linked = {}
        def link(h):
            o = f"{self.work}/k_{h}.bc"
            return h, o, sh([LLVM + "llvm-link"] + self.lib + [self.hbc[h], "-o", o])
        with cf.ThreadPoolExecutor(8) as ex:
            for h, o, r in ex.map(link, harnesses):
                if r.returncode:
                    die("llvm-link failed:\n" + r.stdout[-4000:])
                self.linked[h] = o

    def prep(self, case):
        o = f"{self.work}/p_{case['name']}.bc"
        r = sh([f"{BUILD}/lsx-prep", self.linked[case["file"]], "--entry", case["entry"], "-o", o] + (["--simplifycfg"] if case.get("scfg") else []))
        if r.returncode:
            die("lsx-prep failed: " + r.stdout[-2000:])
        return o

    def native(self, case, san):
        exe = f"{self.work}/n_{case['name']}_{san}"
        if os.path.exists(exe):
            return exe
        bc = exe + ".bc"
        r = sh([f"{BUILD}/lsx-prep", self.linked[case["file"]], "--entry", case["entry"], "-o", bc, "--native", san])
        if r.returncode:
            die("lsx-prep (native) failed: " + r.stdout[-2000:])
        fl = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"], "tsan": ["-fsanitize=thread"], "msan": ["-fsanitize=memory"], "none": []}[san]
        rto = f"{self.work}/rt_{'msan' if san == 'msan' else 'plain'}.o"
        if not os.path.exists(rto):
            r = sh([CLANG, "-std=c++17", "-O1", "-g", "-Wno-everything"] + (fl if san == "msan" else []) + ["-c", f"{HERE}/lib/rt.cc", "-o", rto])
            if r.returncode:
                die("rt build failed: " + r.stdout[-2000:])
        r = sh([CLANG, "-Wno-everything", "-O1"] + fl + ["-x", "ir", bc, "-x", "none", rto, "-o", exe, "-lpthread"])
        if r.returncode:
            die("native build failed: " + r.stdout[-3000:])
        return exe

    def replay(self, case, san, path, timeout=60):
        exe = self.native(case, san)
        env = dict(os.environ, ASAN_OPTIONS="redzone=512:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:strict_memcmp=0",
                   TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0", MSAN_OPTIONS="exitcode=97")
        cmd = [exe, path]
        if san in ("tsan", "msan", "asan"):
            cmd = ["setarch", "-R"] + cmd
        try:
            r = sh(cmd, env=env, timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return "timeout", ""


MAXT = [0]
SAN = {"race": ["tsan", "asan"], "uninit": ["msan", "asan"]}


def confirm(ctx, case, v):
    """Replay a counterexample natively; returns (confirmed, description)."""
    for san in SAN.get(v["kind"], ["asan"]):
        rc, out = ctx.replay(case, san, v["file"], 60 if v["kind"] != "hang" else 40)
        tail = out[-1800:]
        if v["kind"] == "hang":
            if rc == "timeout":
                return True, "native run did not terminate within 40 s"
        elif rc == "timeout":
            return True, "native run did not terminate"
        if rc in (42, 99, 66, 97) or (isinstance(rc, int) and rc < 0):
            m = re.search(r"(LSX-REPLAY violation.*|ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|WARNING: MemorySanitizer.*)", out)
            return True, f"{san} replay exit {rc}: " + (m.group(1) if m else tail[-300:])
    return False, f"native replay exit {rc}: {tail[-300:]}"


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--setup":
        build_engine()
        print("engine built")
        return
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in a
    repo = "/repo"
    only = None
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--case":
            only = a[i + 1]
        if x == "--max-time":
            MAXT[0] = int(a[i + 1])
        if x == "--repo":
            repo = a[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import checks
    if pid not in checks.CHECKS:
        die("unknown check " + pid)
    ck = checks.CHECKS[pid]
    t0 = time.time()
    build_engine()
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix=f"lsx-{pid}-", dir="/tmp")
    code = 2
    try:
        code = run(pid, ck, tier, repo, work, only, t0, t_build)
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, ck, tier, repo, work, only, t0, t_build):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases = []
    for c in ck["cases"]:
        c = dict(c)
        c.setdefault("name", c["entry"])
        if only and c["name"] != only:
            continue
        if c.get("tier") and c["tier"] != tier:
            continue
        cases.append(c)
    ctx = Ctx(repo, work)
    t1 = time.time()
    ctx.compile_all(sorted({c["file"] for c in cases}))
    t_compile = time.time() - t1
    # A "deep" case covers sizes at which an equally right but slower implementation cannot be followed to the end:
    # running out of time or steps there is noted in the evidence as a bound not reached, and decides nothing.
    limit = MAXT[0] or (600 if tier == "quick" else 7200)
    notes = []
    workers = min(8, len(cases)) or 1
    # split big cases by their first choice where asked for
    def one(c):
        bc = ctx.prep(c)
        d = f"{work}/cex_{c['name']}"
        os.makedirs(d, exist_ok=True)
        out = f"{d}/out.json"
        params = dict(c.get("params", {}))
        params.update(c.get(tier, {}))
        cmd = [f"{BUILD}/lsx", bc, "--out", out, "--cex-dir", d, "--repo", os.path.realpath(repo).rstrip("/") + "/",
               "--max-time", str(min(limit, c.get("max_time", limit), 120 if c.get("deep") and tier == "quick" else limit)), "--validate", str(c.get("validate", 3)), "--seed", str(seed),
               "--mem", str(c.get("mem", 3000))]
        for k, v in params.items():
            cmd += ["--param", f"{k}={v}"]
        cmd += [str(x) for x in c.get("opts", [])] + [str(x) for x in c.get("opts_" + tier, [])]
        ts = time.time()
        r = sh(cmd)
        if not os.path.exists(out):
            return c, None, f"engine failed ({r.returncode}): " + r.stdout[-1500:], time.time() - ts
        return c, json.load(open(out)), r.stdout, time.time() - ts
    results = []
    order = sorted(cases, key=lambda c: -c.get("weight", 1))
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, c) for c in order]
        for f in cf.as_completed(futs):
            results.append(f.result())
            if len(sys.argv) > 2 and "-v" in sys.argv:
                c, j, o, dt = results[-1]
                print(c["name"], f"{dt:.1f}s", {k: j[k] for k in ("completed", "infeasible", "pruned", "violating", "forks", "z3_queries", "z3_time", "inconclusive", "why", "covers")} if j else o, flush=True)
                if j and "-f" in sys.argv:
                    print("   fork sites", j["fork_sites"])
    viol, incon = [], []
    agg = dict(completed=0, forks=0, steps=0, z3_queries=0, z3_time=0.0, solver_questions=0, assert_checks=0, infeasible=0, pruned=0,
               schedule_points=0, branch_queries=0, bounds_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0)
    funcs, per = set(), {}
    missing = []
    for c, j, o, dt in results:
        if j is None:
            incon.append(f"{c['name']}: {o}")
            continue
        if o.strip():
            incon.append(f"{c['name']}: engine output: {o.strip()[:300]}") if "model check failed" in o else None
        for k in agg:
            agg[k] += j[k]
        funcs |= set(j["functions"])
        per[c["name"]] = {k: j[k] for k in ("completed", "infeasible", "pruned", "forks", "steps", "assert_checks", "branch_queries", "schedule_points", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "z3_time", "z3_max", "elapsed", "params", "covers")}
        if j["inconclusive"]:
            (notes if c.get("deep") and all("limit" in w for w in j["why"]) else incon).append(f"{c['name']}: " + "; ".join(j["why"]))
        for v in j["violations"]:
            if c.get("deep") and v["kind"] == "hang":
                notes.append(f"{c['name']}: {v['msg']}")
                continue
            viol.append((c, v))
        if not j["violations"] and not j["inconclusive"]:
            for cv in c.get("covers", []):
                if cv not in j["covers"]:
                    missing.append(f"{c['name']}: reachability witness '{cv}' not reached")
            if j["completed"] == 0:
                missing.append(f"{c['name']}: no path completed")
    known = load_known(pid)
    confirmed, unconfirmed, knownhit = [], [], []
    cexdir = os.path.join(HERE, "evidence", "cex")
    for c, v in viol:
        ok, desc = confirm(ctx, c, v)
        os.makedirs(cexdir, exist_ok=True)
        dst = f"{cexdir}/{pid}-{c['name']}-{os.path.basename(v['file'])}"
        shutil.copy(v["file"], dst)
        rec = dict(case=c["name"], kind=v["kind"], message=v["msg"], stack=v["stack"][:12], replay=dst, native=desc)
        k = next((x for x in known if x["case"] == c["name"] and x["match"] in v["msg"]), None)
        if not ok:
            unconfirmed.append(rec)
        elif k:
            knownhit.append((k, rec))
        else:
            confirmed.append(rec)
    # replay sampled passing paths natively
    tv, tbad = 0, []
    samples = []
    todo = []
    if not confirmed:
        for c, j, o, dt in results:
            if j:
                todo += [(c, t) for t in j["traces"]]
        nat = {}
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: ctx.native(c, "asan"), [c for c in {id(c): c for c, _ in todo}.values()]))
            for (c, t), (rc, out) in zip(todo, ex.map(lambda ct: ctx.replay(ct[0], "asan", ct[1], 120), todo)):
                if rc == 0:
                    tv += 1
                elif rc == "timeout" and c.get("deep"):
                    notes.append(f"{c['name']}: a path was not replayed within its time")
                else:
                    os.makedirs(cexdir, exist_ok=True)
                    dst = f"{cexdir}/{pid}-{c['name']}-pass-{os.path.basename(t)}"
                    shutil.copy(t, dst)
                    tbad.append(f"{c['name']}: passing path replays with {rc}: {out[-300:]} ({dst})")
                if len(samples) < 4:
                    samples.append(dict(case=c["name"], path=[l.strip() for l in open(t).read().splitlines()[:14]], native_exit=rc))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, wall_s=round(wall, 2), level="model_checking",
              result="violation" if confirmed else ("inconclusive" if (incon or unconfirmed or missing or tbad) else "held"),
              functions_encoded=sorted(funcs), n_functions_encoded=len(funcs),
              bounds=ck.get("bounds", {}).get(tier, "") if isinstance(ck.get("bounds"), dict) else ck.get("bounds", ""),
              outside=ck.get("outside", ""), assumptions=ck.get("assumptions", []), stubs=ck.get("stubs", []),
              solver=dict(name="Z3 (QF_BV)", questions=agg["solver_questions"], z3_queries=agg["z3_queries"], sat=agg["z3_sat"], unsat=agg["z3_unsat"],
                          unknown=agg["z3_unknown"], seconds=round(agg["z3_time"], 2), property_assertions_discharged=agg["assert_checks"],
                          branch_queries=agg["branch_queries"], bounds_queries=agg["bounds_queries"]),
              cases=per, compile_seconds=round(t_compile, 2), engine_build_seconds=round(t_build, 2),
              coverage=dict(states=agg["completed"] + agg["infeasible"] + agg["pruned"], transitions=agg["steps"], traces_validated_against_impl=tv,
                            paths_completed=agg["completed"], forks=agg["forks"], schedule_points=agg["schedule_points"],
                            samples=samples or [dict(case=r["case"], note=r["message"]) for r in confirmed][:3] or [dict(note="no completed path sampled")],
                            explanation="states = symbolic paths explored to their end (each stands for every input that satisfies its path condition); transitions = IR instructions executed symbolically"),
              violations=confirmed, unconfirmed=unconfirmed, inconclusive=incon + missing + tbad, bounds_not_reached=notes)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] {len(results)} cases, {agg['completed']} paths, {agg['z3_queries']} solver queries ({agg['z3_time']:.1f}s), "
          f"{agg['assert_checks']} assertions, {tv} paths replayed natively, {wall:.1f}s wall")
    for n in notes:
        print("NOTE bound not reached:", n)
    for k, rec in knownhit:
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    if confirmed:
        for r in confirmed:
            print(f"  {r['case']}: {r['kind']}: {r['message']}")
            for s in r["stack"][:6]:
                print("     at", s)
            print("     native:", r["native"])
            print(f"VIOLATION property={pid} replay={r['replay']}")
        return 1
    if unconfirmed or incon or missing or tbad:
        for r in unconfirmed:
            print(f"UNCONFIRMED {r['case']}: {r['kind']}: {r['message']} ({r['native']}) {r['stack'][:6]}")
        for x in incon + missing + tbad:
            print("INCONCLUSIVE", x)
        return 2
    return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(case=m.group(2), match=m.group(3), text=m.group(4)))
    return out


if __name__ == "__main__":
    main()

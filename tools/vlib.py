"""Shared machinery of the checks: building harnesses from /repo's working tree, running TLC,
validating recorded traces against the specification, known findings, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CXX = "g++-14"
CXXFLAGS = ["-std=c++23", "-O1", "-g1", "-fPIC", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-D_GLIBCXX_ASSERTIONS", "-I" + SRC]
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)
LIBDIRS = ["utils", "domain", "infra", "app"]

class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

# ---------------------------------------------------------------- building
def _tree_hash(extra):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, SRC).encode()); h.update(b"\0")
            with open(p, "rb") as fd:
                h.update(fd.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def _compile(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([CXX, *CXXFLAGS, *flags, "-c", src, "-o", tmp])
    if r.returncode:
        return "%s\n%s" % (src, r.stdout[-6000:])
    os.rename(tmp, obj)
    return None

def builddir():
    h = _tree_hash(CXXFLAGS)
    d = os.path.join(BUILD, h)
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
        for o in olds[6:]:
            shutil.rmtree(o, ignore_errors=True)
    return d

def compile_many(jobs):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise CheckError("compilation failed:\n" + "\n".join(errs[:3]))

def build(name, sources, dirs=LIBDIRS, flags=(), libs=("-lpugixml",), extra_sources=()):
    """Compile harness `sources` (relative to /verif/harness) and every .cpp below the given /repo/src
    directories, link, and return the executable's path."""
    d = builddir()
    jobs, objs = [], []
    tag = hashlib.sha256(repr(sorted(flags)).encode()).hexdigest()[:6] if flags else "std"
    for sub in dirs:
        p = os.path.join(SRC, sub)
        files = [p] if os.path.isfile(p) else [os.path.join(r, f) for r, _, fs in os.walk(p) for f in fs if f.endswith(".cpp")]
        for f in sorted(files):
            o = os.path.join(d, tag, os.path.relpath(f, SRC) + ".o")
            jobs.append((f, o, list(flags))); objs.append(o)
    hh = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.endswith(".hpp"):
            hh.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    for s in list(sources):
        p = os.path.join(VERIF, "harness", s)
        hs = hh.copy(); hs.update(open(p, "rb").read())
        o = os.path.join(d, tag, "harness", s + "." + hs.hexdigest()[:10] + ".o")
        jobs.append((p, o, [*flags, "-I" + os.path.join(VERIF, "harness")])); objs.append(o)
    for p in extra_sources:
        o = os.path.join(d, tag, "extra", hashlib.sha256(open(p,"rb").read()).hexdigest()[:12] + ".o")
        jobs.append((p, o, list(flags))); objs.append(o)
    compile_many(jobs)
    exe = os.path.join(d, tag, name + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:10])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX, *objs, *libs, "-o", tmp])
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe

QTBIN = "/usr/lib/qt6/libexec"
APPDEFS = ["-O0", "-g0", '-DOEMSH_VERSION="v"', '-DOEMSH_HOMEPAGE="h"', '-DOEMSH_FUNDING="f"', '-DOEMSH_BUGREPORT="b"', '-DOEMSH_OEMS_MESHING="m"']

def build_app(name, sources=(), with_main=True):
    """The whole application (command line and graphical interface), with main.cpp or with the given harness instead.
    ui/cli/progress.cpp needs the library `indicators`, which is not installed: harness/stub_progress.cpp replaces it."""
    d = builddir(); gen = os.path.join(d, "gen"); os.makedirs(gen, exist_ok=True)
    pc = sh(["pkg-config", "--cflags", "--libs", "Qt6Widgets"]).stdout.split()
    cflags = [x for x in pc if x.startswith(("-I", "-D"))]; libs = [x for x in pc if not x.startswith(("-I", "-D"))]
    qt = os.path.join(SRC, "ui", "qt")
    cpps, cmds = [], []
    for r, _, fs in os.walk(qt):
        for f in sorted(fs):
            p = os.path.join(r, f); rel = os.path.relpath(p, SRC).replace("/", "_")
            if f.endswith(".cpp"): cpps.append(p)
            elif f.endswith(".hpp") and "Q_OBJECT" in open(p, errors="replace").read():
                o = os.path.join(gen, "moc_" + rel + ".cpp"); cmds.append(([QTBIN + "/moc", *cflags, "-I" + SRC, p, "-o"], o)); cpps.append(o)
            elif f.endswith(".ui"): cmds.append(([QTBIN + "/uic", p, "-o"], os.path.join(gen, "ui_" + f[:-3] + ".h")))
            elif f.endswith(".qrc"):
                o = os.path.join(gen, "qrc_" + f + ".cpp"); cmds.append(([QTBIN + "/rcc", "--name", f[:-4], p, "-o"], o)); cpps.append(o)
    with open(os.path.join(gen, "changelog.hpp"), "w") as f:
        f.write('#pragma once\n#include <string>\ninline std::string const changelog;\n')
    def g(c):
        if not os.path.exists(c[1]):
            t = c[1] + ".tmp%d" % os.getpid(); r = sh([*c[0], t])
            if r.returncode: return r.stdout[-2000:]
            os.rename(t, c[1])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(g, cmds) if e]
    if errs: raise CheckError("Qt code generation failed:\n" + errs[0])
    flags = [*cflags, "-I" + gen, "-I" + qt, *APPDEFS]
    jobs, objs = [], []
    for c in cpps:
        o = os.path.join(d, "app", os.path.relpath(c, SRC) + ".o" if c.startswith(SRC) else "gen_" + os.path.basename(c) + ".o")
        jobs.append((c, o, flags)); objs.append(o)
    cli = os.path.join(SRC, "ui", "cli")
    extra = [os.path.join(cli, f) for f in sorted(os.listdir(cli)) if f.endswith(".cpp") and f != "progress.cpp"]
    if with_main: extra.append(os.path.join(SRC, "main.cpp"))
    for c in extra:
        o = os.path.join(d, "app", os.path.relpath(c, SRC) + ".o"); jobs.append((c, o, flags)); objs.append(o)
    for sub in LIBDIRS:
        for r, _, fs in os.walk(os.path.join(SRC, sub)):
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    c = os.path.join(r, f); o = os.path.join(d, "std", os.path.relpath(c, SRC) + ".o"); jobs.append((c, o, [])); objs.append(o)
    hh = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.endswith(".hpp"): hh.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    for s in [*sources, "stub_progress.cpp"]:
        p = os.path.join(VERIF, "harness", s); hs = hh.copy(); hs.update(open(p, "rb").read())
        o = os.path.join(d, "app", "harness", s + "." + hs.hexdigest()[:10] + ".o"); jobs.append((p, o, [*flags, "-I" + os.path.join(VERIF, "harness")])); objs.append(o)
    compile_many(jobs)
    exe = os.path.join(d, "app", name + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:10])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX, *objs, "-lpugixml", *libs, "-ltbb", "-o", tmp])
        if r.returncode:
            r = sh([CXX, *objs, "-lpugixml", *libs, "-o", tmp])
        if r.returncode: raise CheckError("link failed:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe

# ---------------------------------------------------------------- TLC
class TlcResult:
    pass

def tlc(module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g", cwd=SPEC):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, min(workers,4)), "-Xmx" + heap, "-Xss64m", "-cp", TLAJAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", *args, "-config", cfg, module]
    t0 = time.time()
    try:
        r = sh(cmd, cwd=cwd, env=e, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    R = TlcResult()
    R.out, R.rc, R.wall = out, rc, time.time() - t0
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    R.generated = int(m[-1][0].replace(",", "")) if m else 0
    R.distinct = int(m[-1][1].replace(",", "")) if m else 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    R.depth = int(m[-1]) if m else 0
    R.ok = rc == 0
    R.violated = re.findall(r"(?:Invariant|Temporal property|property|Action property|Postcondition) (\S+?)(?: \S+)* (?:is|was) violated", out)
    return R

def model_check(module, cfg, workers=NCPU, timeout=840, heap="8g", args=()):
    """Exhaustive check of the specification. A failure here is an error of the machinery, not of the code. Where the time
    given is not enough, what was explored (breadth first) stands, and the evidence says that it is not everything."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
    r.complete = r.ok
    if not r.ok and r.rc == "timeout" and r.distinct and not r.violated and "Error:" not in r.out: return r
    if not r.ok:
        raise CheckError("model checking %s/%s failed (rc=%s):\n%s" % (module, cfg, r.rc, r.out[-3500:]))
    return r

def _trace_one(job):
    module, cfg, path, env, timeout = job
    n = sum(1 for _ in open(path))
    e = {"TRACE": path}; e.update(env or {})
    r = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap="3g")
    m = re.search(r"TRACE-RESULT matched=(\d+) of=(\d+)", r.out)
    # the postcondition prints how many lines were matched
    if m is None:
        # TLC could not evaluate the event following the last state reached (a value outside every domain
        # the specification knows): the event is rejected.
        if r.distinct and re.search(r"Error: (?!.*(Parsing|Semantic|Java|config))", r.out) and "Parsing or semantic" not in r.out and "OutOfMemory" not in r.out and "StackOverflow" not in r.out and r.rc != "timeout":
            return dict(path=path, n=n, matched=min(r.distinct - 1, n - 1), r=r, evalerr=r.out[-3000:])
        return dict(path=path, n=n, matched=None, r=r)
    return dict(path=path, n=n, matched=int(m.group(1)), r=r)

def split_scenarios(lines):
    """lines: list of json strings; a scenario starts at an event with op == 'begin'."""
    out, cur = [], []
    for l in lines:
        if '"op":"begin"' in l and cur:
            out.append(cur); cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    return out

def validate(module, cfg, scenarios, workdir, env=None, timeout=780, shards=NCPU, max_fail=4, per_shard=None):
    """Validate scenarios (lists of json lines) with TLC in parallel shards.
    Returns (stats, failures); failure = dict(scenario=[lines], at=index of the first unmatched line)."""
    os.makedirs(workdir, exist_ok=True)
    def write(name, scs):
        p = os.path.join(workdir, name)
        with open(p, "w") as f:
            for s in scs:
                for l in s:
                    f.write(l + "\n")
        return p
    n = max(1, min(shards, len(scenarios)))
    groups = [[] for _ in range(n)]
    # balance by number of characters
    sizes = [0] * n
    for s in sorted(scenarios, key=lambda s: -sum(map(len, s))):
        i = sizes.index(min(sizes)); groups[i].append(s); sizes[i] += sum(map(len, s)) + 200
    stats = dict(events=0, scenarios=len(scenarios), tlc_states=0, tlc_wall=0.0)
    failures = []
    def work(gi):
        rest, fails, st, rnd, wall = groups[gi], [], 0, 0, 0.0
        while rest:
            p = write("t%d_%d.ndjson" % (gi, rnd), rest)
            res = _trace_one((module, cfg, p, env, timeout)); rnd += 1
            r = res["r"]; wall += r.wall
            if res["matched"] is None:
                raise CheckError("trace validation did not complete (%s on %s, rc=%s):\n%s" % (module, p, r.rc, r.out[-3500:]))
            st += res["matched"]
            if res["matched"] >= res["n"]:
                break
            k = res["matched"]
            for i, s in enumerate(rest):
                if k < len(s):
                    fails.append(dict(scenario=s, at=k)); rest = rest[i+1:]; break
                k -= len(s)
            if len(fails) >= max_fail:
                break
        return fails, st, wall
    with cf.ThreadPoolExecutor(n) as ex:
        for fails, st, wall in ex.map(work, range(n)):
            failures += fails; stats["events"] += st; stats["tlc_wall"] += wall
    # a rejection is only reported if it repeats on its own
    confirmed = []
    for i, f in enumerate(failures[:8]):
        p = write("confirm%d.ndjson" % i, [f["scenario"]])
        res = _trace_one((module, cfg, p, env, timeout))
        if res["matched"] is None:
            raise CheckError("confirmation run failed:\n" + res["r"].out[-3000:])
        if res["matched"] < res["n"]:
            f["at"] = res["matched"]; confirmed.append(f)
        else:
            raise CheckError("a rejection did not repeat (%s)" % p)
    return stats, confirmed

# ---------------------------------------------------------------- check driver
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.tier = TIER if TIER in ("quick", "thorough") else "quick"
        self.scratch = tempfile.mkdtemp(prefix="v_%s_" % pid)
        self.known = load_known(pid)
        self.known_hit = {}

    def mc(self, module, cfg, **kw):
        # the checks of the specification share a part of the time a check has
        kw.setdefault("timeout", max(60, (420 if self.tier == "thorough" else 300) - (time.time() - self.t0)))
        r = model_check(module, cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("model_runs", []).append(dict(module=module, cfg=cfg, distinct=r.distinct, generated=r.generated, depth=r.depth, wall_s=round(r.wall, 1), complete=r.complete))
        log("[%s] model %s/%s: %d distinct states, depth %d, %.1fs%s" % (self.pid, module, cfg, r.distinct, r.depth, r.wall, "" if r.complete else ", stopped: not all states"))
        return r

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def traces(self, module, cfg, scenarios, env=None, describe=None, label="traces", **kw):
        st, fails = validate(module, cfg, scenarios, os.path.join(self.scratch, label), env=env, **kw)
        self.cov["traces_validated_against_impl"] += st["scenarios"] - len(fails)
        self.cov["transitions"] += st["events"]
        self.cov.setdefault("trace_runs", []).append(dict(module=module, cfg=cfg, label=label, scenarios=st["scenarios"], events=st["events"], rejected=len(fails), tlc_s=round(st["tlc_wall"], 1)))
        log("[%s] %s: %d scenarios, %d events, %d rejected" % (self.pid, label, st["scenarios"], st["events"], len(fails)))
        for s in scenarios[:2]:
            self.sample([json.loads(l) for l in s[:4]])
        for f in fails:
            self.violation(f, module=module, cfg=cfg, env=env or {}, describe=describe)
        return fails

    def violation(self, f, module="", cfg="", env=None, describe=None):
        bad = f["scenario"][f["at"]] if f["at"] < len(f["scenario"]) else "(end)"
        key = describe(f) if describe else bad
        for k in self.known:
            if re.search(k["match"], key):
                self.known_hit.setdefault(k["id"], (k, key)); return
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        n = len(self.violations) + 1
        p = os.path.join(VERIF, "out", "%s_%d.ndjson" % (self.pid, n))
        with open(p, "w") as fd:
            for l in f["scenario"]:
                fd.write(l + "\n")
        with open(p.replace(".ndjson", ".txt"), "w") as fd:
            fd.write("property %s\nmodule %s config %s env %s\nfirst event the specification rejects: line %d\n%s\n\n%s\n" % (self.pid, module, cfg, env, f["at"] + 1, bad, key))
        self.violations.append((p, key))

    def crash(self, what, path_lines):
        """The real code died or hung on a legal input."""
        self.violation(dict(scenario=path_lines or [what], at=0), describe=lambda f: what)

    def finish(self):
        for kid, (k, key) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for p, key in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("   " + key[:600])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %s in %.0fs, %d traces, %d model states" % (self.pid, self.tier, "VIOLATED" if self.violations else "held", time.time() - self.t0, self.cov["traces_validated_against_impl"], self.cov["states"]))
        return 1 if self.violations else 0

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get("findings", []) if k["property"] == pid]

def run_harness(exe, args, timeout=300, env=None, input=None):
    e = dict(os.environ); e["LC_ALL"] = "C.UTF-8"; e.update(env or {})
    try:
        r = subprocess.run([exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e, input=input)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        return "timeout", o, ""

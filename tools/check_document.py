"""C17-C22: documents read and written, and the command line, against spec/Document.tla and spec/Files.tla."""
import random
from vlib import *
import docgen

def read_options(r, gen, pid):
    o = dict(on=[r.random() < .85 for _ in range(3)], rp=r.random() < .8, kg=r.random() < .4, cli=dict(docgen.NOP), fx=[[], [], []])
    args = []
    p = .4 if pid in ("C18", "C22") else .1
    for k, (_, ts) in docgen.PARAMS.items():
        if r.random() < p / 2: t = r.choice(ts); o["cli"][k] = docgen.canon(k, t); args.append("%s=%s" % (k, t))
    if r.random() < .2:
        for a, l in enumerate(gen.lines(.4)):
            for x in l: o["fx"][a].append(x * 250); args.append("f=%s:%s" % ("xyz"[a], docgen.num(r, x * 250)))
    return o, args

def read_scenario(a):
    exe, pid, seed, i, work, n = a
    r = random.Random(seed * 7919 + i)
    lines, died = ['{"op":"begin","n":%d}' % i], None
    cmds, evs = [], []
    for k in range(n):
        g = docgen.Gen(r, M=r.choice([3, 10]))
        d, text = g.doc()
        o, args = read_options(r, g, pid)
        p = os.path.join(work, "r%d_%d.csx" % (i, k))
        if not d["wf"] and r.random() < .2: p += ".missing"
        else: open(p, "w", encoding="utf-8").write(text)
        cmds.append("parse %s %d %d %d %d %d %s" % (p, *o["on"], o["rp"], o["kg"], " ".join(args))); evs.append(dict(op="read", d=d, o=o))
    rc, out, err = run_harness(exe, [], input="\n".join(cmds) + "\n", timeout=60)
    got = [x for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
    for e, x in zip(evs, got): e["r"] = json.loads(x); lines.append(json.dumps(e, separators=(",", ":"), ensure_ascii=False))
    if rc != 0 or len(got) != len(cmds):
        died = "reading a document ended the program (%s): %s" % (rc, err[-300:])
        if len(got) < len(cmds): lines.append(json.dumps(dict(op="died", cmd=cmds[len(got)], text=open(cmds[len(got)].split()[1]).read()[:4000] if os.path.exists(cmds[len(got)].split()[1]) else "")))
    return lines, died

def reading(c, pid, n, per=12):
    exe = build("h_document", ["h_document.cpp"])
    work = os.path.join(c.scratch, "docs"); os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(read_scenario, [(exe, pid, SEED, i, work, per) for i in range(n)]))
    scs = []
    for lines, died in res:
        if died: c.crash(died, lines)
        else: scs.append(lines)
    c.traces("DocumentTrace.tla", "DocumentTrace.cfg", scs, env={"FOCUS": pid}, label="documents read", max_fail=2)

# ---------------------------------------------------------------- the program on a folder
import hashlib, resource, signal, xml.parsers.expat, bisect, re as _re

def tree(text):
    """the document as nested lists: [kind, ...]; None if it is none"""
    text = _re.sub(r"^\s*<\?xml\b[^>]*\?>", "", text)
    root = ["e", "", {}, []]; st = [root]
    p = xml.parsers.expat.ParserCreate(); p.buffer_text = True
    def add(n): st[-1][3].append(n)
    def start(n, a): e = ["e", n, dict(sorted(a.items())), []]; add(e); st.append(e)
    p.StartElementHandler = start; p.EndElementHandler = lambda n: st.pop()
    p.CharacterDataHandler = lambda t: add(["t", t]); p.CommentHandler = lambda t: add(["c", t]); p.ProcessingInstructionHandler = lambda a, b: add(["p", a, b])
    try: p.Parse("<r>" + text + "</r>", True)
    except xml.parsers.expat.ExpatError: return None
    def clean(e):
        e[3] = [k for k in e[3] if k[0] != "t" or k[1].strip()]
        for k in e[3]:
            if k[0] == "e": clean(k)
    clean(root)
    return root[3][0]

def kid(e, name): return next((k for k in e[3] if k[0] == "e" and k[1] == name), None) if e else None
def nums(t):
    try: return [float(x) for x in t.split(",")] if t.strip() else []
    except ValueError: return None
def axes(e):
    out = []
    for a in "XYZ":
        k = kid(e, a + "Lines"); t = "".join(x[1] for x in k[3] if x[0] == "t") if k else ""
        out.append(nums(t))
    return out

class Pool:
    """opaque numbers for texts"""
    def __init__(s): s.ids = {}
    def __call__(s, x): return s.ids.setdefault(json.dumps(x, sort_keys=True), len(s.ids) + 1)

def content(path, pool):
    """what a name leads to, with lines as numbers"""
    if os.path.isdir(path): return dict(k="dir", raw=0)
    if not os.path.exists(path): return dict(k="absent", raw=0) if os.path.isdir(os.path.dirname(path)) else dict(k="nodir", raw=0)
    if path == "/dev/full": return dict(k="full", raw=0)
    b = open(path, "rb").read(); raw = pool(hashlib.sha256(b).hexdigest()); t = b.decode(errors="replace")
    if t.startswith("@startuml") and t.rstrip().endswith("@enduml"): return dict(k="uml", raw=raw)
    d = tree(t)
    top = kid(d, "openEMS"); csx = kid(top, "ContinuousStructure") if top else kid(d, "ContinuousStructure")
    if d is None or csx is None: return dict(k="junk", raw=raw)
    grid = kid(csx, "RectilinearGrid")
    if grid is None: grid = ["e", "RectilinearGrid", {}, []]; csx[3].append(grid)
    g = axes(grid); grid[3] = []
    oe = kid(d, "OpenEMSH"); par = dict(docgen.NOP); xl = [[], [], []]; x = ""
    if oe:
        gp, fm = kid(oe, "GlobalParams"), kid(oe, "FixedMeshlines")
        if gp:
            for k, (n, _) in docgen.PARAMS.items():
                if n in gp[2]:
                    try: par[k] = docgen.canon(k, gp[2][n])
                    except (ValueError, OverflowError): par[k] = "?" + gp[2][n]
            gp[2] = {}
            if not gp[3]: oe[3].remove(gp)
        if fm:
            u = float(fm[2].get("DeltaUnit", 1)); xl = [[u * v for v in (l or [])] for l in axes(fm)]
        x = str(pool([oe[2], oe[3]])) if oe[2] or oe[3] else ""
        d[3].remove(oe)
    return dict(k="csx", raw=raw, body=pool(d), g=[l if l is not None else [float("nan")] for l in g], p=par, x=x, xl=xl)

def decorate(r, text):
    for _ in range(r.choice([0, 1, 3])):
        ks = [m.end() - 1 for m in _re.finditer(r">\s*<(?![?!])", text) if "Lines" not in text[max(0, m.start() - 8):m.start() + 1]]
        if not ks: return text
        k = r.choice(ks); text = text[:k] + r.choice(["<!-- note -->", "<!--a--><!-- <b> -->", "<?todo now?>"]) + text[k:]
    if "</FDTD>" in text and r.random() < .5: text = text.replace("</FDTD>", r.choice(["<![CDATA[a < b & c]]>", "some  &amp; text &#233;", "<T a='1&#10;2' b=\"&quot;'\"> x </T>", "<E></E>", "t<b/>u"]) + "</FDTD>", 1)
    return text

BAD = dict(pl=["-1", "-0.001", "nan", "inf", "abc"], sm=["1", "2.001", "0", "-1.5", "nan", "inf", "x"], dm=["0", "-1", "nan", "abc"], lm=["-1", "2.5", "abc"], dd=["0", "-0.1", "nan", "z"], dl=["-2", "1.5", "q"], da=["abc", "1..2"])
OPT = dict(pl="--proximity-limit", sm="--smoothness", dm="--dmax", lm="--lmin", dd="--diag-dmax", dl="--diag-lmin", da="--diag-minimal-angle")
def value(t):
    try: f = float(t)
    except ValueError: return dict(f="text", n=0)
    return dict(f="nan", n=0) if f != f else dict(f="inf", n=0) if abs(f) == float("inf") else dict(f="num", n=round(f * 1000))

def options(r, pid, names, gen):
    """a random run: the abstract options and the command line"""
    hot = pid == "C22"
    o = dict(fmt=r.choice(["csx"] * 12 + ["plantuml", "prettyprint"]), force=r.random() < .55, limit=r.random() < (.08 if pid == "C21" else .02), save=r.random() < .6, rp=r.random() < .8, kg=r.random() < .3,
             ml=r.random() < .85, pl=r.random() < .3, on=[r.random() < .9 for _ in range(3)], ax=[r.random() < .9 for _ in range(3)], cli=dict(docgen.NOP), fx=[[], [], []], given=[])
    docs = [n for n in names if n.endswith(".csx") and "/" not in n]
    o["in"] = r.choice(docs + ["a.csx", "b.csx"] * 2 + (["sub", "none.csx"] if pid in ("C21", "C22") and r.random() < .3 else []))
    o["out"] = r.choice([o["in"]] * 3 + docs + ["new.csx"] + (["sub", "nodir/x.csx", "/dev/full"] if pid == "C21" and r.random() < .5 else []))
    args = []
    def opt(n, v): args.append([n + "=" + v] if n.startswith("--") and r.random() < .5 or v.startswith("-") else [n, v])
    bad = r.random() < (.25 if hot else .04)
    badone = r.choice(list(BAD) + ["fx", "axis", "format", "switch", "option"]) if bad else None
    for k in BAD:
        if k == badone: t = r.choice(BAD[k])
        elif r.random() < (.35 if hot else .12): t = r.choice([x for x in docgen.PARAMS[k][1] if k not in ("dm", "dd") or float(x) >= .2])
        else: continue
        opt(OPT[k], t); v = value(t); o["given"].append(dict(k=k, v=v))
        if k != badone: o["cli"][k] = docgen.canon(k, t)
    if r.random() < .25 or badone in ("fx", "axis"):
        for a, l in enumerate(gen.lines(.3)):
            for x in l: t = docgen.num(r, x * 250); o["fx"][a].append(float(t)); args.append(["--add-fixed-meshline", "%s,%s" % (r.choice(["xyz", "XYZ"])[a], t)]); o["given"].append(dict(k="fx", v=value(t)))
        if badone == "fx": t = r.choice(["nan", "inf", "abc", "1x", "-inf"]); args.append(["--add-fixed-meshline", "x," + t]); o["given"].append(dict(k="fx", v=dict(f="text", n=0)))
        if badone == "axis": args.append(["--add-fixed-meshline", r.choice(["w,1", "1,x", "xy,2"])]); o["given"].append(dict(k="axis", v=dict(f="text", n=0)))
    if badone in ("format", "switch", "option"): o["given"].append(dict(k=badone, v=dict(f="text", n=0)))
    if badone == "format": args.append(["--output-format", r.choice(["json", "cs", ""])])
    elif o["fmt"] != "csx" or r.random() < .1: opt("--output-format", r.choice([o["fmt"], o["fmt"].upper()]))
    if badone == "switch": args.append([r.choice(["--meshlines", "--policy-lines", "--read-oemsh-params", "--integrate-old-mesh"]), r.choice(["maybe", "2x", "tru"])])
    else:
        T, N = r.choice([("true", "false"), ("1", "0"), ("on", "off"), ("yes", "no")])
        for n, k, df in (("--meshlines", "ml", True), ("--policy-lines", "pl", False), ("--read-oemsh-params", "rp", True), ("--integrate-old-mesh", "kg", False)):
            if o[k] != df or r.random() < .2: opt(n, T if o[k] else N)
    if badone == "option": args.append(r.choice([["--frobnicate"], ["-q"], ["--dmx", "3"], ["--dmax"], ["extra.csx", "more.csx"]]))
    for i, n in enumerate(("yz", "zx", "xy")):
        if not o["on"][i]: args.append(["--no-" + n])
    for i, n in enumerate("xyz"):
        if not o["ax"][i]: args.append(["--no-" + n])
    if o["save"]: args.append(["--save-oemsh-params"])
    if o["force"]: args.append([r.choice(["-f", "--force"])])
    if r.random() < .1: args.append([r.choice(["-v", "--verbose"])])
    return o, args

def meshable(par, fx):
    def ok(k, t):
        try: f = float(t)
        except ValueError: return False
        return f == f and abs(f) != float("inf") and (f > 0 if k in ("dm", "dd") else f > 1 if k == "sm" else f >= 0 if k != "da" else True)
    return all(ok(k, t) for k, t in par.items()) and all(abs(v) < 1e9 for l in fx for v in l)
HUNG = []
def effective(o, c): return {k: o["cli"][k] or (c["p"][k] if o["rp"] and not c["p"][k].startswith("?") else "") or DEFAULT[k] for k in docgen.PARAMS}
DEFAULT = dict(pl="1", sm="2", dm="2.5", lm="2", dd="0.20000000000000001", dl="2", da="20")

def limited():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (64, 64))

def files_scenario(a):
    exe, ref, pid, seed, i, work, n = a
    r = random.Random(seed * 104729 + i)
    top = os.path.join(work, "f%d" % i); os.makedirs(os.path.join(top, "sub")); home = os.path.join(work, "h%d" % i); os.makedirs(home)
    pool = Pool(); names = ["a.csx", "b.csx", "c.csx", "new.csx", "none.csx", "sub", "nodir/x.csx", "/dev/full"]; flags = {}
    def where(x): return x if x.startswith("/") else os.path.join(top, x)
    for x in names[:3]:
        g = docgen.Gen(r, M=3)
        while True:
            d, text = g.doc()
            cold = d["wf"] and d["root"] != "other" and not d["cs"] and not (d["badp"] or d["badf"] or d["badg"])
            if cold or x == "c.csx" and r.random() < .7: break
        for t in ("0.1", "0.2"):   # keep the meshes small
            text = text.replace('dmax="%s"' % t, 'dmax="0.5"')
        text = decorate(r, text)
        if x == "c.csx" and r.random() < .1: continue
        open(where(x), "w", encoding="utf-8", newline="").write(text)
        flags[x] = dict(bad=not d["wf"] or d["root"] == "other" or d["cs"] != 0, badp=d["badp"], badf=d["badf"], badg=d["badg"])
    def look(): return {x: content(where(x), pool) for x in names}
    now = look()
    first = {x: dict(c, **flags[x]) if c["k"] == "csx" else c for x, c in now.items()}
    for x, f in flags.items():
        if now[x]["k"] != "csx" and not f["bad"]: return None, "docgen: %s of scenario %d should be readable" % (x, i)
    evs, refs = [], {}
    for k in range(n):
        if len(HUNG) >= 3 or evs and evs[-1].get("exit") == 124: break
        g = docgen.Gen(r, M=3)
        o, args = options(r, pid, names, g)
        again = k > 0 and r.random() < .3
        if again: o, args = json.loads(json.dumps(evs[-1]["o"])), evs[-1]["_a"]
        c = now[o["in"]]
        if c["k"] == "csx":
            par = effective(o, c); fx = [sorted(set(o["fx"][q]) | (set(c["xl"][q]) if o["rp"] else set()) | (set(x for x in c["g"][q] if x == x) if o["kg"] else set())) for q in range(3)]
            key = json.dumps([c["body"], par, o["on"], fx], sort_keys=True)
            if key not in refs and meshable(par, fx):
                p = os.path.join(work, "b%d_%d.csx" % (i, len(refs))); shutil.copy(where(o["in"]), p); refs[key] = len(refs)
                cmd = "mesh %s %d %d %d 0 0 %s %s" % (p, *o["on"], " ".join("%s=%s" % kv for kv in par.items()), " ".join("f=%s:%r" % ("xyz"[q], v) for q in range(3) for v in fx[q]))
                rc, out, err = run_harness(ref, [], input=cmd + "\n", timeout=25)
                res = [x for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
                m = json.loads(res[0]) if rc == 0 and res else dict(ok=False)
                if m["ok"]: evs.append(dict(op="ref", body=c["body"], par=par, on=o["on"], fx=fx, r=dict(ml=[[float(v) for v in l] for l in m["ml"]], pol=[[float(v) for v in l] for l in m["pol"]])))
        # how the command is written
        words = list(args)
        if not again:
            words += [["-i", o["in"]] if r.random() < .3 else ["--input=" + o["in"]] if r.random() < .2 else [o["in"]]]
            if o["out"] != o["in"] or r.random() < .4: words += [[r.choice(["-o", "--output"]), o["out"]]]
            r.shuffle(words)
            pos = [w for w in words if w == [o["in"]]]
            if pos: words.remove(pos[0]); words.insert(0, pos[0])
        flat = [x for w in words for x in w]
        flat = [where(x) if x in names and r.random() < .3 else x for x in flat]
        e = dict(os.environ, LC_ALL="C.UTF-8", HOME=home, QT_QPA_PLATFORM="offscreen", XDG_CONFIG_HOME=home)
        try:
            q = subprocess.run([exe, *flat], cwd=top, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=25, preexec_fn=limited if o["limit"] else None, restore_signals=not o["limit"])
            rc, said = q.returncode, bool(q.stdout.strip() or q.stderr.strip())
        except subprocess.TimeoutExpired: rc, said = 124, False; HUNG.append(flat)
        now = look()
        evs.append(dict(op="run", o=o, args=flat, exit=rc, said=said, fs=now, _a=words))
    # lines by rank
    vals = set()
    def walk(x, f):
        if isinstance(x, float): return f(x)
        if isinstance(x, list): return [walk(y, f) for y in x]
        if isinstance(x, dict): return {k: walk(y, f) for k, y in x.items()}
        return x
    def see(x):
        vals.add(x if x == x else float("inf")); return x
    for e in evs + [dict(fs=first)]: walk({k: v for k, v in e.items() if k in ("fs", "r", "fx", "o")}, see)
    order = sorted(vals); cls, c = [], 0
    for k, v in enumerate(order):
        if k == 0 or not v - order[k - 1] < 1e-8: c = k + 1
        cls.append(c)
    rank = {v: k + 1 for k, v in enumerate(order)}
    tr = lambda x: walk(x, lambda v: rank[v if v == v else float("inf")])
    lines = [json.dumps(dict(op="begin", n=i, fs=tr(first), cls=cls), separators=(",", ":"))]
    for e in evs: lines.append(json.dumps(tr({k: v for k, v in e.items() if k != "_a"}), separators=(",", ":")))
    shutil.rmtree(top, ignore_errors=True); shutil.rmtree(home, ignore_errors=True)
    for k in range(len(refs)): os.path.exists(os.path.join(work, "b%d_%d.csx" % (i, k))) and os.remove(os.path.join(work, "b%d_%d.csx" % (i, k)))
    return lines, None

def running(c, pid, n, per=7):
    exe = build_app("openemsh"); ref = build("h_document", ["h_document.cpp"])
    work = os.path.join(c.scratch, "folders"); os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(files_scenario, [(exe, ref, pid, SEED, i, work, per) for i in range(n)]))
    for lines, why in res:
        if lines is None: raise CheckError(why)
    c.traces("FilesTrace.tla", "FilesTrace.cfg", [l for l, _ in res], env={"FOCUS": pid}, label="runs of the program", max_fail=2)

def run(pid):
    c = Check(pid)
    thorough = c.tier == "thorough"
    if pid in ("C17", "C18"): c.mc("MCDocument.tla", "MCDocument_%s.cfg" % ("deep" if thorough else "quick"))
    if pid in ("C19", "C20", "C21", "C22"): c.mc("MCFiles.tla", "MCFiles_%s.cfg" % ("deep" if thorough else "quick"))
    if pid in ("C17", "C18", "C22", "C20"): reading(c, pid, 4000 if thorough else (480 if pid in ("C17", "C18") else 160))
    if pid != "C17": running(c, pid, (2400 if thorough else 280) // (6 if pid == "C18" else 1))
    return c.finish()

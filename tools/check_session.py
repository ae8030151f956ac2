"""C04-C07: sessions of the application against spec/Pipeline.tla."""
import random, threading
from vlib import *
import csxgen

FROMS = dict(edge=5, angle=5, policy=12, interval=15)
class Track:
    """Which situation a session is in: only used to choose references worth computing, never to judge."""
    def __init__(s): s.cur, s.hist, s.br, s.doc, s.ov, s.finals = (), [()], 1, "", "", set()
    def feed(s, e):
        done = lambda p: max([k for t, k in p if t == "s"], default=0)
        st = lambda a, b: tuple(("s", k) for k in range(a, b + 1))
        def before(p, k): return p[:p.index(("s", k))] if ("s", k) in p else p
        def rem(p): s.hist = s.hist[:s.br] + [p]; s.br += 1; s.cur = p
        o = e["op"]
        if o == "load": s.doc, s.ov, s.cur, s.hist, s.br = e["doc"], e["ov"], (), [()], 1
        elif o == "open": s.doc, s.ov, s.cur = e["doc"], "", st(1, 15); s.hist, s.br = [(), s.cur], 2
        elif o == "next" and done(s.cur) < 15: rem(s.cur + st(done(s.cur) + 1, done(s.cur) + 1))
        elif o == "prev" and done(s.cur): rem(before(s.cur, done(s.cur)))
        elif o == "undo" and s.br > e["n"]: s.br -= e["n"]; s.cur = s.hist[s.br - 1]
        elif o == "redo" and s.br + e["n"] <= len(s.hist): s.br += e["n"]; s.cur = s.hist[s.br - 1]
        elif o == "all": rem(s.cur + st(done(s.cur) + 1, 15))
        elif o in ("from", "edit"):
            k = e["k"] if o == "from" else e["from"]
            b = before(s.cur, k)
            if o == "edit": b = b + (("e", e["key"]),)
            rem(b + st(min(k, done(b) + 1), 15))
        if o in ("next", "all", "from", "edit", "open"): s.finals.add((s.doc, s.ov, s.cur))

def ref_cmd(paths, key):
    doc, ov, path = key
    items = (["ov " + ov] if ov else []) + [str(k) if t == "s" else k for t, k in path]
    return "ref %s %s %s" % (doc, paths[doc], ";".join(items))

def commands(r, pid, docs, paths, big):
    """One scenario: several runs of the program over the same documents."""
    def load(ov=""): 
        d = r.choice(docs); return "load %s %s %s" % (d, paths[d], ov)
    procs = []
    def some(n, w):
        out = []
        for _ in range(n):
            x = r.choices(list(w), list(w.values()))[0]
            out.append({"next": "next", "prev": "prev", "undo": "undo %d" % r.choice([1, 1, 1, 2, 3]), "redo": "redo %d" % r.choice([1, 1, 1, 2]),
                        "from": "from %d" % r.randrange(1, 16), "all": "from 1", "edit": "edit " + csxgen.edit(r), "load": load(),
                        "prevs": "\n".join(["prev"] * r.randrange(2, 16)), "again": again(), "nexts": "\n".join(["next"] * r.randrange(2, 16)), "undos": "\n".join(["undo 1"] * r.randrange(2, 6))}[x])
        return out
    def again():
        # back exactly to where an edit was made, then on from there
        k = r.choice(["interval", "policy", "policy", "edge", "zone", "global"])
        back = {"interval": 1, "policy": 4, "edge": 11, "zone": 2, "global": 13}[k]
        return "\n".join(["edit " + csxgen.edit(r, (k,))] + ["prev"] * back + r.choice([["edit " + csxgen.edit(r, (k,))], ["from %d" % (16 - back)], ["next"] * r.randrange(1, back + 1), ["edit " + csxgen.edit(r)]]))
    n = 24 if big else 14
    if pid == "C04":
        for _ in range(2):
            p = []
            for _ in range(3):
                p += [load(), r.choice(["all", "next", "nexts"]).replace("nexts", "next\nnext\nnext\nnext\nnext")] + some(r.randrange(2, 8), dict(next=2, prev=2, undo=3, redo=2, edit=2, nexts=1))
            # the automatic collection may be off: a document still starts from nothing
            p += [load(), "all", "prev", "autogc 0", load(), "next", "undo 1"] + some(r.randrange(1, 5), dict(next=3, prev=2, undo=3, edit=2)) + [load(), "next", "autogc 1", "next", load()]
            procs.append(p)
        for d in docs: procs.append(["load %s %s" % (d, paths[d]), "all", "prev"])
    elif pid == "C05":
        procs.append([load()] + ["next"] * 16 + ["prev"] * r.randrange(1, 17) + some(6, dict(next=3, prev=3, undo=1, redo=1)) + ["next"] * 16)
        procs.append([load(), "all"] + some(n, dict(next=4, prev=4, undo=2, redo=2, nexts=1, prevs=1, **{"from": 1})) + ["next"] * 16)
        procs.append([load()] + some(n, dict(next=4, prev=3, undo=2, redo=2, nexts=1, edit=.5, again=.5)) + ["next"] * 16)
    elif pid == "C06":
        for _ in range(2): procs.append([load(), r.choice(["all", "all", "next"])] + some(n, dict(next=1, prev=2, prevs=.4, nexts=.4, undo=3, redo=2, undos=.5, edit=.7, again=.4, **{"from": 5})))
        procs.append([load(), "all"] + ["from %d" % k for k in r.sample(range(1, 16), 15)])
    elif pid == "C27":
        procs.append([load()] + ["next"] * r.randrange(1, 17) + some(n, dict(next=3, prev=3, prevs=.5, nexts=.5, undo=2, redo=2, undos=.3, edit=2, again=.3, load=.5, **{"from": 2})))
        procs.append([load(), "all"] + some(n, dict(next=2, prev=3, prevs=.5, nexts=.5, undo=2, redo=2, undos=.3, edit=3, again=.3, load=.3, **{"from": 2})))
    else:
        for _ in range(3): procs.append([load(), r.choice(["all", "all", "next\nnext\nnext\nnext\nnext\nnext\nnext\nnext"])] + some(n, dict(edit=6, again=1.5, undo=2, redo=1, next=.5, prev=.7, prevs=.2, **{"from": .3})))
    return ["\n".join(p).split("\n") for p in procs]

VIEWS = ["tb_plane_xy", "tb_plane_yz", "tb_plane_zx", "tb_show_selected", "tb_show_displayed", "tb_show_displayed", "tb_show_everything", "tb_show_all_mesh", "tb_show_vertical_mesh", "tb_show_horizontal_mesh", "tb_show_no_mesh",
         "tb_curved_wires", "tb_direct_wires", "tb_anchor", "tb_structure_zoom_in", "tb_structure_rotate_cw", "a_fit"]
def partly(r, e):
    """the same edit, with some of the values left as the dialog shows them"""
    f = e.split(); n = 1 if f[0] == "global" else 3
    u = r.random()
    if u < .35: return e
    if u < .75:
        one = r.randrange(n, len(f))
        return " ".join(f[:n] + [x if k == one else "-" for k, x in enumerate(f)][n:])
    return " ".join(f[:n] + [x if r.random() < .5 else "-" for x in f[n:]])
def gui_commands(r, pid, docs, paths, bad, big):
    procs = []
    n = 24 if big else 14
    w = dict(next=2, prev=3, undo=4, redo=3, edit=3, again=.3, prevs=.3, undos=.3) if pid in ("C24", "C27") else dict(next=.5, prev=1, undo=2, redo=1, edit=6, again=.6)
    if pid == "C07": w.update(bad=1.5, cancel=.3)
    if pid == "C24": w.update(cancel=1, bad=1, view=3, pick=1.5, open=.6, openbad=.25, opencancel=.2)
    for k in range(2):
        d = r.choice(docs)
        p = ["start -", "view a_fit", "open %s %s" % (d, paths[d])] if pid == "C24" and r.random() < .3 else ["start %s %s" % (d, paths[d])]
        for _ in range(n):
            x = r.choices(list(w), list(w.values()))[0]; d = r.choice(docs); e = partly(r, csxgen.edit(r, ("global", "global", "zone", "zone", "edge", "edge", "edge", "angle", "policy", "policy", "interval")) if pid == "C07" else csxgen.edit(r))
            p.append({"next": "next", "prev": "prev", "undo": "undo", "redo": "redo", "edit": "edit " + e, "cancel": "cancel " + e, "bad": "bad " + e, "view": "view " + r.choice(VIEWS),
                      "open": "open %s %s" % (d, paths[d]), "openbad": "openbad %s\nview a_fit\nnext\nundo\nview %s\nopen %s %s" % (r.choice(bad), r.choice(VIEWS), d, paths[d]), "opencancel": "opencancel", "pick": "pick %s %d" % (r.choice("sp"), r.randrange(1000)),
                      "prevs": "\n".join(["prev"] * r.randrange(2, 16)), "undos": "\n".join(["undo"] * r.randrange(2, 6) + ["redo"] * r.randrange(0, 3)),
                      "again": "edit interval 0 0 1 1 1.5 1 1.5\nprev\nedit interval 0 0 1 2 1.5 2 1.5\nprev\nnext"}[x])
        procs.append("\n".join(p).split("\n"))
    return procs

def scenario(args):
    exe, pid, seed, i, work, big, gui, cli = args
    r = random.Random(seed * 1000003 + i)
    docs = ["d%d" % k for k in range(2 if pid == "C04" else 1)]
    paths = {}
    for d in docs:
        paths[d] = os.path.join(work, "s%d_%s.csx" % (i, d))
        open(paths[d], "w").write(csxgen.document(r))
    lines, died, finals = ['{"op":"begin","n":%d}' % i], None, set()
    def go(cmds, track):
        nonlocal died
        lines.append('{"op":"proc"}')
        rc, out, err = run_harness(gui if track is not None and gui else exe, [], env={"XDG_RUNTIME_DIR": work, "HOME": work}, input="\n".join(cmds) + "\n", timeout=60)
        ls = [x for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
        if track is not None:
            for x in ls: track.feed(json.loads(x))
            finals.update(track.finals)
        lines.extend(ls)
        if rc != 0: died = "the application died (%s): %s" % (rc, err[-300:])
    bad = [os.path.join(work, n) for n in ("bad0.csx", "bad1.csx", "none.csx")] 
    for cmds in (gui_commands(r, pid, docs, paths, bad[:2], big) if gui else commands(r, pid, docs, paths, big)):
        go(cmds, Track())
        if died: break
    if not died and pid == "C27":
        # the program itself, run from the command line
        for v in (True, False):
            log, out = (os.path.join(work, "s%d_%d.%s" % (i, v, x)) for x in ("bars", "out.csx"))
            rc, o, err = run_harness(cli, [*(["-v"] if v else []), "-f", "-i", paths["d0"], "-o", out], env={"XDG_RUNTIME_DIR": work, "HOME": work, "PROGRESS_LOG": log}, input="", timeout=60)
            if rc != 0: died = "the program died (%s): %s" % (rc, err[-300:]); break
            pg = open(log).read().splitlines() if os.path.exists(log) else []
            lines.append('{"op":"cli","v":%s,"pg":[%s]}' % ("true" if v else "false", ",".join(pg)))
    elif not died:
        # independent references for a few of the situations reached, the most complete ones first
        fs = sorted(finals, key=lambda f: (len([x for x in f[2] if x[0] == "e"]), len(f[2])))
        pick = fs[-1:] + r.sample(fs, min(len(fs), 3)) if fs else []
        if pid == "C07":
            ones = [f for f in fs if len([x for x in f[2] if x[0] == "e"]) == 1 and max([k for t, k in f[2] if t == "s"], default=0) == 15]
            pick += [f for f in r.sample(ones, min(len(ones), 8)) if f not in pick]
        for f in pick:
            if any(t == "e" and k.startswith("global") for t, k in f[2]):
                # parameters edited: the document loaded with them
                g = [k for t, k in f[2] if t == "e" and k.startswith("global")][-1]
                f = (f[0], g, tuple(x for x in f[2] if not (x[0] == "e" and x[1].startswith("global"))))
            go([ref_cmd(paths, f)], None)
            if died: break
    return lines, died

SIZES = dict(C27=(40, 160), C24=(40, 160), C04=(60, 240), C05=(60, 240), C06=(60, 240), C07=(80, 320))
GUIS = dict(C24=1, C07=2, C27=4)  # every how many scenarios the graphical interface is driven
def run(pid):
    c = Check(pid)
    exe = build("h_session", ["h_session.cpp"])
    gui = build_app("h_gui", ["h_gui.cpp"], with_main=False) if pid in GUIS else None
    cli = build_app("openemsh") if pid == "C27" else None
    thorough = c.tier == "thorough"
    c.mc("MCPipeline", "MCPipeline_deep.cfg" if thorough else "MCPipeline_quick.cfg")
    n = SIZES[pid][thorough]
    work = os.path.join(c.scratch, "docs"); os.makedirs(work)
    for k, t in enumerate(["<openEMS><Contin", '<?xml version="1.0"?><openEMS><FDTD /></openEMS>']): open(os.path.join(work, "bad%d.csx" % k), "w").write(t)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(scenario, [(exe, pid, SEED, i, work, thorough, gui if gui and i % GUIS[pid] == 0 else None, cli) for i in range(n)]))
    scs = []
    for lines, died in res:
        if died: c.crash(died, lines)
        else: scs.append(lines)
    c.traces("PipelineTrace.tla", "PipelineTrace.cfg", scs, env={"FOCUS": pid}, label="sessions", max_fail=1)
    c.assumptions = ["documents: small random boxes, prisms and flat shapes with every material kind; sessions: random commands",
                     "the model is compared through a digest of everything its getters show",
                     "edits use the values the edit dialogs accept"]
    return c.finish()

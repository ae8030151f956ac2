"""C25: lives of documents in the window against spec/Editor.tla. The commands are behaviours of MCEditor made by TLC."""
import glob, random
from vlib import *
import csxgen

BAD = ["<openEMS><Contin", '<?xml version="1.0"?><openEMS><FDTD /></openEMS>', '<?xml version="1.0"?><foo />']
WORK = ["next", "prev", "prev", "undo", "redo", "edit 0.%d"]
LOOKS = ["tb_plane_yz", "tb_show_no_mesh", "tb_show_selected", "a_fit", "tb_structure_zoom_in", "tb_direct_wires"]

def behaviours(seed, num, work):
    d = os.path.join(work, "sim"); os.makedirs(d)
    r = tlc("MCEditor", "MCEditor_sim.cfg", args=["-simulate", "file=%s/t,num=%d" % (d, num), "-seed", str(seed), "-depth", "13"], timeout=300)
    if not r.ok: raise CheckError("simulation of MCEditor failed:\n" + r.out[-3000:])
    return [re.findall(r'cmd = "([^"]*)"', open(f).read()) for f in sorted(glob.glob(d + "/t_*"))]

def commands(r, cmds):
    out = []
    for c in cmds:
        if c.startswith("start"): out.append(c + " " + r.choice(["csx", "csx", "csx", "uml", "pretty"])); continue
        if r.random() < .25: out.append("look " + r.choice(LOOKS))
        if c == "work" or r.random() < .2:
            w = r.choice(WORK); out.append(w % r.randrange(3, 10) if "%" in w else w)
        if c != "work": out.append(c)
    return out

def scenario(args):
    exe, i, cmds, work = args
    r = random.Random(SEED * 7919 + i)
    top = os.path.join(work, "s%d" % i); d = os.path.join(top, "d"); os.makedirs(d); os.makedirs(os.path.join(top, "bin")); os.makedirs(os.path.join(top, "tmp"))
    v = os.path.join(top, "bin", "AppCSXCAD")
    open(v, "w").write('#!/bin/sh\ncp "$2" "$EDITOR_DIR/handed.out" && : > "$EDITOR_DIR/handed.done"\n'); os.chmod(v, 0o755)
    for n in "ab": open(os.path.join(d, n + ".csx"), "w").write(csxgen.document(r, r.choice(["rect", "rect", "mixed", "one", "diag"])))
    open(os.path.join(d, "bad.csx"), "w").write(r.choice(BAD))
    env = {"XDG_RUNTIME_DIR": top, "HOME": top, "TMPDIR": os.path.join(top, "tmp"), "EDITOR_DIR": d, "PATH": os.path.join(top, "bin") + ":" + os.environ.get("PATH", "")}
    rc, out, err = run_harness(exe, [d], env=env, input="\n".join(commands(r, cmds)) + "\n", timeout=120)
    ls = [x for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
    shutil.rmtree(top, ignore_errors=True)
    if not ls: return [], "the application died (%s): %s" % (rc, err[-300:])
    return ['{"op":"begin","n":%d,"fs":%s}' % (i, json.dumps(json.loads(ls[0])["fs"]))] + ls, ("the application died (%s): %s" % (rc, err[-300:]) if rc else None)

def run(pid):
    c = Check(pid)
    exe = build_app("h_editor", ["h_editor.cpp"], with_main=False)
    thorough = c.tier == "thorough"
    c.mc("MCEditor", "MCEditor_deep.cfg" if thorough else "MCEditor_quick.cfg")
    bs = behaviours(SEED, 1600 if thorough else 320, c.scratch)
    work = os.path.join(c.scratch, "w"); os.makedirs(work)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(scenario, [(exe, i, b, work) for i, b in enumerate(bs)]))
    scs = []
    for lines, died in res:
        if died: c.crash(died, lines)
        else: scs.append(lines)
    c.traces("EditorTrace.tla", "EditorTrace.cfg", scs, label="lives of documents", max_fail=1)
    c.assumptions = ["commands: behaviours of MCEditor drawn by TLC, with more work and looking around in between",
                     "a save is judged by the body and the grid of the file, what the model shows being taken from its getters",
                     "closing is asked for through the window; opening another document does not ask, as the application does not promise it"]
    return c.finish()

"""C23: the logger against spec/Log.tla."""
import itertools, random
from vlib import *

LEVELS = ["question", "info", "warning", "error"]
def run(pid):
    c = Check(pid)
    thorough = c.tier == "thorough"
    exe = build("h_log", ["h_log.cpp"], dirs=["utils", os.path.join("ui", "cli", "logger.cpp")], libs=())
    c.mc("MCLog", "MCLog_deep.cfg" if thorough else "MCLog_quick.cfg")
    r = random.Random(SEED)
    words = ["register 1 0", "register 1 1", "register 2 0", "register 2 1", "register 3 0", "set 0", "set 1", "set 2", "set 9", "log 0 question 12", "log 1 info -", "log 2 question 3", "log 9 error 25"]
    scs, n = [], 0
    def add(cmds):
        nonlocal n
        scs.append(["begin %d" % n] + cmds); n += 1
    # every short sequence, then a message to everybody and to each
    for k in range(1, 5 if thorough else 4):
        for w in itertools.product(words[:9], repeat=k): add(list(w) + ["log 0 question 12", "log 1 info -", "log 2 warning 4", "log 9 error 25"])
    for _ in range(4000 if thorough else 800):
        ids = r.sample(range(1, 2 ** 40), 5) + [0]
        m = dict(enumerate(ids))
        add([r.choice(["register %d %d" % (r.choice(ids[:5]), r.random() < .3), "set %d" % r.choice(ids), "log %d %s %s" % (r.choice(ids + [7]), r.choice(LEVELS), "".join(r.sample("012345", r.randrange(0, 4))) or "-")]) for _ in range(r.randrange(5, 40))])
    cli = []
    for v in (0, 1):
        for f in (0, 1):
            for lv in LEVELS:
                for ac in ("-", "13", "2", "12345", "45"):
                    for junk in ("", "x,", "_,", "maybe,no,", "n,", "y,_,", "a,c,s,y,n,"):
                        for last in [" nysca"[int(a)] for a in ac if a != "-"] + ["-"]:
                            cli.append("cli %d %d %s %s %s" % (v, f, lv, ac, (junk + last if last != "-" else junk.rstrip(",")) or "-"))
    add(cli)
    rc, out, err = run_harness(exe, [], input="\n".join(x for s in scs for x in s) + "\n", timeout=300)
    lines = [x for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
    if rc != 0: c.crash("the logger died (%s): %s" % (rc, err[-300:]), lines[-20:])
    # TLC wants small numbers: identifiers are renamed, 0 stays nobody
    done = []
    for s in split_scenarios(lines):
        ids = {0: 0}; o = []
        for l in s:
            e = json.loads(l)
            if "id" in e: e["id"] = ids.setdefault(e["id"], len(ids))
            o.append(json.dumps(e, separators=(",", ":")))
        done.append(o)
    c.traces("LogTrace.tla", "LogTrace.cfg", done, label="logger")
    c.assumptions = ["sinks answer at once", "no sink is ever removed: the logger offers no way to"]
    return c.finish()

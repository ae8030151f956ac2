from vlib import *
def trace_lines(out): return [l for l in out.splitlines() if l.startswith("{")]
def run(pid):
    c = Check(pid)
    exe = build("h_history", ["h_history.cpp"])
    thorough = c.tier == "thorough"
    if pid == "C01":
        c.mc("MCHistory", "MCHistory_nav_deep.cfg" if not thorough else "MCHistory_nav_max.cfg")
        plans = [(SEED, 600, 40, 0), (SEED+1, 60, 200, 0), (SEED+2, 150, 60, 2)]
    elif pid == "C02":
        c.mc("MCHistory", "MCHistory_obj_quick.cfg" if not thorough else "MCHistory_obj_deep.cfg")
        plans = [(SEED, 500, 50, 1), (SEED+1, 60, 200, 1), (SEED+2, 100, 60, 2)]
    else:
        c.mc("MCHistory", "MCHistory_gc_quick.cfg" if not thorough else "MCHistory_gc_deep.cfg")
        plans = [(SEED, 500, 50, 2), (SEED+1, 60, 200, 2), (SEED+2, 100, 60, 1)]
    if thorough:
        plans = [(a + 100*k, n*2, m, p) for k in range(4) for a, n, m, p in plans]
    scs = []
    for s, n, m, p in plans:
        rc, out, err = run_harness(exe, [s, n, m, p])
        sc = split_scenarios(trace_lines(out))
        if rc != 0:
            c.crash("the history machinery died (%s): %s" % (rc, err[-400:]), sc[-1] if sc else [])
            sc = sc[:-1]
        scs += sc
    if pid in ("C01", "C02"):
        rc, out, err = run_harness(exe, ["enum", 6 if thorough else 4])
        sc = split_scenarios(trace_lines(out))
        if rc != 0:
            c.crash("the history machinery died (%s): %s" % (rc, err[-400:]), sc[-1]); sc = sc[:-1]
        scs += sc
    c.traces("HistoryTrace.tla", "HistoryTrace.cfg", scs, env={"FOCUS": pid}, label="history")
    c.assumptions = ["states are recorded at points no later point depends on, as the application does",
                     "the model run is bounded (points, remembered points, objects in the cfg); executions are random plus all short command sequences"]
    return c.finish()

from vlib import *
def trace_lines(out): return [l for l in out.splitlines() if l.startswith("{")]
def geom_scenarios(c, plans):
    exe = build("h_geom", ["h_geom.cpp"])
    scs = []
    for args in plans:
        rc, out, err = run_harness(exe, args)
        sc = split_scenarios(trace_lines(out))
        if rc != 0:
            c.crash("the geometry code died (%s) on %s: %s" % (rc, args, err[-400:]), sc[-1] if sc else [])
        scs += sc
    return scs
def check(pid):
    c = Check(pid)
    thorough = c.tier == "thorough"
    c.mc("MCGeometry", "MCGeometry_seg_%s.cfg" % ("deep" if thorough else "quick"))
    c.mc("MCGeometry", "MCGeometry_poly_%s.cfg" % ("deep2" if thorough else "quick"))
    if thorough:
        c.mc("MCGeometry", "MCGeometry_poly_deep.cfg")
        plans = [("enum", 2)] + [(SEED + k, 6000, 4000, g) for k, g in enumerate([6, 9, 12, 14])]
    else:
        plans = [("enum", 2), (SEED, 2500, 700, 8), (SEED + 1, 2500, 300, 12)]
    scs = geom_scenarios(c, plans)
    c.traces("GeometryTrace.tla", "GeometryTrace.cfg", scs, env={"FOCUS": pid}, label="geometry")
    c.assumptions = ["coordinates are exactly representable and far above the equality tolerance (1e-8) of the code",
                     "polygons are simple; segments have two distinct ends"]
    return c
def run(pid):
    return check(pid).finish()

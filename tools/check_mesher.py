from vlib import *
import check_geometry
FLAVOURS = {  # flavour -> boards in the quick and thorough tiers
  "C08": dict(mixed=(250, 2500), rect=(150, 1500), dense=(200, 1500)),
  "C09": dict(mixed=(200, 1500), rect=(150, 1200), dense=(250, 1800)),
  "C10": dict(mixed=(250, 2500), rect=(150, 1500), dense=(150, 1500)),
  "C11": dict(mixed=(150, 1500), rect=(150, 1500), policies=(500, 5000)),
  "C12": dict(mixed=(200, 2500), rect=(150, 1500), policies=(500, 5000)),
  "C13": dict(mixed=(150, 1500), rect=(150, 1500), policies=(400, 4000)),
  "C15": dict(mixed=(250, 2500), rect=(150, 1500), dense=(250, 2500)),
  "C16": dict(mixed=(100, 900), diag=(250, 2000)),
}
def mesher_scenarios(c, pid, tier):
    exe = build("h_mesher", ["h_mesher.cpp"])
    jobs = []
    for fl, (q, t) in FLAVOURS[pid].items():
        n = t if tier == "thorough" else q
        step = 250
        for k in range(0, n, step):
            jobs.append((SEED * 1000 + k // step, min(step, n - k), pid, fl))
    scs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for args, (rc, out, err) in zip(jobs, ex.map(lambda a: run_harness(exe, a), jobs)):
            sc = split_scenarios([l for l in out.splitlines() if l.startswith("{")])
            if rc != 0:
                c.crash("the mesher died or hung (%s) on %s: %s" % (rc, args, err[-400:]), sc[-1] if sc else [])
            scs += sc
    return scs
BOARD = [("MCBoard.tla", ["MCBoard.cfg"], ["MCBoard_deep.cfg"])]
POLICIES = [("MCPolicies.tla", ["MCPolicies.cfg"], ["MCPolicies_deep.cfg"])]
MODELS = {"C08": BOARD, "C09": BOARD, "C10": BOARD, "C15": BOARD, "C11": POLICIES, "C12": POLICIES, "C13": POLICIES,
          "C16": [("MCDiagonals.tla", ["MCDiagonals.cfg"], ["MCDiagonals_deep.cfg"])]}
def run(pid):
    if pid == "C15":
        c = check_geometry.check("C15")
    else:
        c = Check(pid)
    thorough = c.tier == "thorough"
    for module, quick, deep in MODELS.get(pid, []):
        for cfg in (deep if thorough else quick):
            c.mc(module, cfg)
    scs = mesher_scenarios(c, pid, c.tier)
    c.traces("MeshingTrace.tla", "MeshingTrace.cfg", scs, env={"FOCUS": pid}, label="mesher")
    c.assumptions = ["vertices lie on a grid far coarser than the equality tolerance (1e-8) of the code",
                     "polygons are simple or flat boxes"]
    return c.finish()

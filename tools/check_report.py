"""C26: the reports (plantuml, prettyprint) of the model against spec/Report.tla."""
import random, re
from vlib import *
import csxgen

NUM = r"-?\d+\.\d+|-?inf|-?nan"
def uml(text):
    """The states, with what they lie in, and the links between them, of a PlantUML text."""
    nodes, links, junk, stack, by = [], [], [], [], {}
    lines = text.split("\n")
    if not lines or lines[0] != "@startuml": junk.append("no start")
    if [l for l in lines if l][-1:] != ["@enduml"]: junk.append("no end")
    for l in lines:
        l = l.strip()
        if not l or l in ("@startuml", "@enduml"): continue
        if l == "}":
            if stack: stack.pop()
            else: junk.append(l)
            continue
        m = re.fullmatch(r'state "(.*)" as (\w+)((?: #\w+)?) \{', l)
        if m:
            n = dict(id=m[2], label=m[1], inside=stack[-1]["id"] if stack else "", color=m[3].strip(), pins=[], facts=[])
            nodes.append(n); stack.append(n); continue
        m = re.fullmatch(r'state " " as (\w+?)_(\w+) <<(inputPin|outputPin)>>', l)
        if m and stack and stack[-1]["id"] == m[1]:
            stack[-1]["pins"].append(m[2] + (" <" if m[3] == "inputPin" else " >")); continue
        m = re.fullmatch(r'(\w+?)(?:_(\w+))? -+(?:\[(.*)\])?-+> (\w+?)(?:_(\w+))?', l)
        if m:
            links.append(dict(a=m[1], ap=m[2] or "", b=m[4], bp=m[5] or "", style=m[3] or "")); continue
        m = re.fullmatch(r'(\w+) : (.*?) = (.*)', l)
        if m and stack and stack[-1]["id"] == m[1]:
            stack[-1]["facts"].append([m[2], m[3]]); continue
        junk.append(l)
    if stack: junk.append("not closed")
    for n in nodes: n["pins"].sort()
    return dict(nodes=nodes, links=links, junk=junk)

EDGE = r"\{ (%s), (%s) \} -> \{ (%s), (%s) \} (\w+) (\w+) (\w+) ([OX])" % (NUM, NUM, NUM, NUM)
def edge(l):
    m = re.fullmatch(EDGE, l)
    return m and dict(p0=[m[1], m[2]], p1=[m[3], m[4]], axis=m[5], dir=m[6], normal=m[7], mesh=m[8] == "O")
def txt(text):
    """The conflicts told by a text report, section by section."""
    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    out = dict(eip=[], colinear=[], close=[], junk=[])
    section, cur, poly = None, None, None
    for l in text.split("\n"):
        l = l.strip()
        if not l: continue
        m = re.fullmatch(r"CONFLICT: (.*)", l)
        if m:
            section = {"EDGE IN POLYGONS": "eip", "COLINEAR EDGES": "colinear", "TOO CLOSE MESHLINE POLICIES": "close"}.get(m[1]); cur = None
            if section is None: out["junk"].append(l)
            continue
        if section == "eip":
            if l == "Conflict EdgeInPolygon between:": cur = dict(plane="", edge=[], overlaps=[], outcome=""); poly = None; out["eip"].append(cur); continue
            m = re.fullmatch(r"Plane: (\w+)", l)
            if m and cur: cur["plane"] = m[1]; continue
            m = re.fullmatch(r"Edge: (.*)", l)
            if m and cur and edge(m[1]): cur["edge"].append(edge(m[1])); continue
            m = re.fullmatch(r"Polygon: (.*) (\w+) \{", l)
            if m and cur: poly = dict(name=m[1], rot=m[2], edges=[], by=[], p0=[], p1=[], axis=""); cur["overlaps"].append(poly); continue
            if poly and edge(l): poly["edges"].append(edge(l)); continue
            if poly and l == "}": continue
            m = re.fullmatch(r"by edge: (.*)", l)
            if m and poly and edge(m[1]): poly["by"].append(edge(m[1])); continue
            m = re.fullmatch(r"on range: \{ (%s), (%s) \} -> \{ (%s), (%s) \} (\w+)" % (NUM, NUM, NUM, NUM), l)
            if m and poly: poly.update(p0=[m[1], m[2]], p1=[m[3], m[4]], axis=m[5]); continue
            m = re.fullmatch(r"Solution: (to mesh|don't mesh)", l)
            if m and cur: cur["outcome"] = m[1]; continue
        if section == "colinear":
            if l == "Conflict ColinearEdges between:": cur = dict(axis="", edges=[], sol=""); out["colinear"].append(cur); continue
            m = re.fullmatch(r"Axis: (\w+)", l)
            if m and cur: cur["axis"] = m[1]; continue
            m = re.fullmatch(r"Edge: (.*)", l)
            if m and cur and edge(m[1]): cur["edges"].append(edge(m[1])); continue
            m = re.fullmatch(r"Solution: (\w+)", l)
            if m and cur: cur["sol"] = m[1]; continue
        out["junk"].append(l)
    return out

def scenario(args):
    exe, seed, i, work = args
    r = random.Random(seed * 1000003 + i)
    p = os.path.join(work, "r%d.csx" % i)
    open(p, "w").write(csxgen.document(r))
    cmds = ["load " + p, "report"] if r.random() < .2 else ["load " + p]
    for _ in range(r.randrange(2, 6)):
        cmds += {"all": ["all"], "next": ["next"] * r.randrange(1, 8), "prev": ["prev"] * r.randrange(1, 4), "undo": ["undo 1"], "redo": ["redo 1"], "edit": ["edit " + csxgen.edit(r)]}[
            r.choices(["all", "next", "prev", "undo", "redo", "edit"], [3, 3, 1, 1, .5, 4])[0]] + ["report"]
    rc, out, err = run_harness(exe, [os.path.join(work, "r%d.out" % i)], input="\n".join(cmds) + "\n", timeout=120)
    lines = ['{"op":"begin","n":%d}' % i]
    for x in out.splitlines():
        if not (x.startswith("{") and x.endswith("}")): continue
        e = json.loads(x); e["uml"] = uml(e["uml"]); e["txt"] = txt(e["txt"]); lines.append(json.dumps(e))
    return lines, "the application died (%s): %s" % (rc, err[-300:]) if rc else None

def run(pid):
    c = Check(pid)
    exe = build("h_report", ["h_report.cpp"])
    thorough = c.tier == "thorough"
    c.mc("MCReport", "MCReport_deep.cfg" if thorough else "MCReport_quick.cfg")
    work = os.path.join(c.scratch, "docs"); os.makedirs(work)
    scs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for lines, died in ex.map(scenario, [(exe, SEED, i, work) for i in range(1500 if thorough else 200)]):
            if died: c.crash(died, lines)
            else: scs.append(lines)
    c.traces("ReportTrace.tla", "ReportTrace.cfg", scs, env={"FOCUS": pid}, label="reports", max_fail=1)
    c.assumptions = ["names of shapes hold no quotation mark, brace or line break", "numbers are told with six decimals", "how a report is laid out (order of the states, colours of the text) is left open"]
    return c.finish()

"""Random CSX documents, both as the abstract record spec/Document.tla describes and as text."""
import random
from xml.sax.saxutils import escape, quoteattr

PARAMS = dict(pl=("ProximityLimit", ["0", "0.1", "0.25", "1", "1.7", "3", "1e-3"]), sm=("Smoothness", ["1.1", "1.25", "1.5", "2", "1.9999"]), dm=("dmax", ["0.3", "1", "2.5", "10", "1e2", "0.1"]),
              lm=("lmin", ["0", "1", "2", "3", "5"]), dd=("DiagonalDmax", ["0.1", "0.2", "0.5", "3"]), dl=("DiagonalLmin", ["0", "1", "2", "4"]), da=("DiagonalMinimalAngle", ["0", "20", "45.5", "180", "1e-2"]))
UINT = ("lm", "dl")
def canon(k, t): return str(int(t)) if k in UINT else "%.17g" % float(t)
NOP = {k: "" for k in PARAMS}

def num(r, v, spaces=True):
    """a length in thousandths, written in one of the ways it can be"""
    s = "%d" % (v // 1000) if v % 1000 == 0 else ("%.3f" % (v / 1000)).rstrip("0")
    u = r.random()
    if u < .1: s = "%.3f" % (v / 1000)
    elif u < .15: s = "%.6e" % (v / 1000)
    elif u < .2 and v % 1000: s = "%de-3" % v
    return s

def attrs(r, pairs):
    pairs = [(k, v) for k, v in pairs]
    if r.random() < .3: r.shuffle(pairs)
    if r.random() < .1: pairs.insert(r.randrange(len(pairs) + 1), ("Extra", "x<>&\"y"))
    return "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in pairs)

def sp(r): return r.choice(["", "", "\n", "  ", "\n\t"])
def elem(r, tag, at, kids=()):
    a = attrs(r, at)
    if not kids and r.random() < .6: return "<%s%s%s/>" % (tag, a, r.choice(["", " "]))
    return "<%s%s>%s%s</%s>" % (tag, a, sp(r), sp(r).join(kids), tag)

def pt(r, tag, v, names="XYZ"): return elem(r, tag, [(n, num(r, x)) for n, x in zip(names, v)])

class Gen:
    def __init__(s, r, M=10, focus=None): s.r, s.M, s.focus = r, M, focus
    def c(s): return s.r.randrange(-s.M * 4, s.M * 4 + 1) * 250
    def p3(s): return [s.c(), s.c(), s.c()]
    def prim(s, kind=None):
        r = s.r
        kind = kind or r.choice(["Box"] * 4 + ["MultiBox", "LinPoly", "LinPoly", "Polygon", "Polygon", "Sphere", "Cylinder", "Cylinder", "Point", "Curve", "Curve",
                         "Polyhedron", "PolyhedronReader", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "User-Defined", "Bogus"])
        pr = r.choice([0, 1, 2, 3, 7, 10, 255]); g = dict(kind=kind, pr=str(pr), tr=False); at = [("Priority", pr)] if pr or r.random() < .5 else []; kids = []
        if kind == "Box":
            a, b = s.p3(), s.p3()
            for k in range(3):
                if r.random() < .15: b[k] = a[k]
            g.update(a=a, b=b); kids = [pt(r, "P1", a), pt(r, "P2", b)]
        elif kind == "MultiBox":
            n, m = r.randrange(0, 4), 0; m = n + r.choice([0, 0, 0, -1, 1]); m = max(m, 0)
            g.update(**{"as": [s.p3() for _ in range(n)], "bs": [s.p3() for _ in range(m)]}); kids = [pt(r, "StartP", a) for a in g["as"]] + [pt(r, "EndP", b) for b in g["bs"]]
            if r.random() < .5: kids = [x for ab in zip(kids[:n], kids[n:]) for x in ab] + kids[min(n, m):n] + kids[n + min(n, m):]
            elif r.random() < .3: kids = kids[n:] + kids[:n]
        elif kind in ("LinPoly", "Polygon"):
            nd, el = r.choice([0, 1, 2, 0, 1, 2, 0, 1, 2, 3]), s.c(); v = [[s.c(), s.c()] for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6]) if r.random() < .3 else r.randrange(3, 7))]
            g.update(nd=nd, el=el, v=v); at += [("NormDir", nd), ("Elevation", num(r, el)), ("CoordSystem", 0)]
            if kind == "LinPoly":
                ln = r.choice([0, 250, 1000, -1500, 3250]); g["len"] = ln; at.append(("Length", num(r, ln)))
            kids = [elem(r, "Vertex", [("X1", num(r, a)), ("X2", num(r, b))]) for a, b in v]
        elif kind == "Sphere": g.update(a=s.p3(), r=r.randrange(1, 40) * 500); at.append(("Radius", num(r, g["r"]))); kids = [pt(r, "Center", g["a"])]
        elif kind == "Cylinder":
            a, b = s.p3(), s.p3(); k = r.randrange(4)
            if k < 3: b = [b[i] if i == k else a[i] for i in range(3)]
            if a == b: b[k % 3] += 1000   # without any length it would have no axis
            g.update(a=a, b=b, r=r.randrange(1, 40) * 500); at.append(("Radius", num(r, g["r"]))); kids = [pt(r, "P1", a), pt(r, "P2", b)]
            if r.random() < .3: kids.reverse()
        elif kind == "Point": g["a"] = s.p3(); at += [(n, num(r, x)) for n, x in zip("XYZ", g["a"])]
        elif kind == "Curve":
            g["v"] = [s.p3() for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5]))]; kids = [pt(r, "Vertex", v) for v in g["v"]]
            if len(g["v"]) > 1 and r.random() < .5:   # in a plane
                k = r.randrange(3)
                for v in g["v"]: v[k] = g["v"][0][k]
                kids = [pt(r, "Vertex", v) for v in g["v"]]
        else: kids = [pt(r, "P1", s.p3())]
        if r.random() < .08:
            g["tr"] = True
            ts = ["<%s Argument=\"%s\"/>" % r.choice([("Translate", "1,2,3"), ("Translate", "0,2,0"), ("Translate", "0,0,-1.5"), ("Scale", "2"), ("Scale", "0.5,1,1"), ("Rotate_X", "1.57"), ("Rotate_Z", "0.3"), ("Matrix", "0,1,0,0,1,0,0,0,0,0,1,0,0,0,0,1"), ("RotateOrigin", "0,0,1,0.7")]) for _ in range(r.choice([1, 1, 1, 2]))]
            kids.insert(r.choice([0, len(kids)]), "<Transformation>%s</Transformation>" % "".join(ts))
        elif r.random() < .1: kids.insert(0, "<Transformation/>")
        if r.random() < .05: kids.append("<Other a='1'/>")
        return g, elem(r, kind, at, kids)
    def prop(s, i, tag=None):
        r = s.r
        tag = tag or r.choice(["Metal"] * 3 + ["Material"] * 4 + ["ConductingSheet", "LumpedElement", "Excitation", "ProbeBox", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial", "DumpBox", "ResBox", "DiscMaterial", "Unknown", "Foo"])
        name = r.choice(["p%d" % i, "a b %d" % i, "é<%d>&\"" % i, "Name", ""])
        q = dict(tag=tag, name=name, e=1000, m=1000, k=0, fc=[], ec=[], prims=[])
        kids = []
        for k, tg in (("fc", "FillColor"), ("ec", "EdgeColor")):   # a component which is not told is 0
            if r.random() < .45:
                q[k] = [r.choice([0, 1, 10, 123, 128, 200, 255]) for _ in range(4)]
                kids.append(elem(r, tg, [(n, v) for n, v in zip(("R", "G", "B", "a"), q[k]) if v or r.random() < .6]))
        if tag.endswith("Material") and tag != "DiscMaterial" and r.random() < .9:
            q["e"], q["m"], q["k"] = r.choice([1000, 1000, 4500, 2200, 500]), r.choice([1000, 1000, 1000, 2000]), r.choice([0, 0, 1, 1000000])
            at = [(n, num(r, v) + (",1,1" if r.random() < .1 else "")) for n, v, dflt in (("Epsilon", q["e"], 1000), ("Mue", q["m"], 1000), ("Kappa", q["k"], 0)) if v != dflt or r.random() < .5] + ([("Sigma", 0)] if r.random() < .5 else [])
            kids.append(elem(r, "Property", at))
            if r.random() < .3: kids.append(elem(r, "Weight", [("Epsilon", 1), ("Kappa", 7)]))
        xs = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            g, x = s.prim(); q["prims"].append(g); xs.append(x)
        if xs or r.random() < .7: kids.append(elem(r, "Primitives", [], xs))
        if r.random() < .2: r.shuffle(kids)
        at = [("Name", name)] if name or r.random() < .5 else []
        if tag == "Excitation": at.append(("Type", 0))
        if tag == "ConductingSheet": at += [("Conductivity", "56e6"), ("Thickness", "1e-6")]
        return q, elem(r, tag, at, kids)
    def lines(s, p=.5): return [sorted(s.r.sample(range(-s.M * 4, s.M * 4 + 1), s.r.randrange(1, 5))) if s.r.random() < p else [] for _ in range(3)]
    def linetext(s, ls, unit250=True): return s.r.choice([",", ",", ", ", ",\n"]).join(num(s.r, x * 250) for x in ls)
    def doc(s, nprops=None):
        r = s.r
        d = dict(wf=True, root="openEMS" if r.random() < .8 else "bare", cs=0, badp=False, badf=False, badg=False, bg=[], props=[], par=dict(NOP), fx=[[], [], []], fu2=2, gr=[[], [], []])
        cs = []
        # grid
        if r.random() < .8:
            ls = s.lines(.4) if r.random() < .6 else [[], [], []]; d["gr"] = [[x * 250 for x in l] for l in ls]; kids = []
            bad = r.random() < .06 and any(ls)
            for a in range(3):
                if ls[a] or r.random() < .5:
                    t = s.linetext(ls[a])
                    if bad and ls[a]: t = r.choice(["abc", t + ",x", "nan", t + ",inf", ",".join([t, "", "1"]), "1e999"]); d["badg"] = True
                    kids.append("<%sLines>%s</%sLines>" % ("XYZ"[a], t, "XYZ"[a]) if t or r.random() < .5 else "<%sLines/>" % "XYZ"[a])
            if r.random() < .2: r.shuffle(kids)
            grid = elem(r, "RectilinearGrid", [("DeltaUnit", r.choice(["1", "0.001", "2"])), ("CoordSystem", 0)], kids)
        else: grid = None
        bgx = None
        if r.random() < .5:
            d["bg"] = [r.choice([1000, 1000, 2000]), r.choice([1000, 1000, 1500]), r.choice([0, 0, 5])]
            bgx = elem(r, "BackgroundMaterial", [(n, num(r, v)) for n, v, df in zip(("Epsilon", "Mue", "Kappa"), d["bg"], (1000, 1000, 0)) if v != df or r.random() < .6])
        pxs = []
        for i in range(r.choice([0, 1, 1, 2, 2, 3, 4]) if nprops is None else nprops):
            q, x = s.prop(i); d["props"].append(q); pxs.append(x)
        kids = [x for x in (grid, bgx, elem(r, "Properties", [], pxs) if pxs or r.random() < .8 else None) if x]
        if r.random() < .3: r.shuffle(kids)
        if r.random() < .2: kids.append("<ParameterSet/>")
        if r.random() < .05: d["cs"] = 1
        csx = elem(r, "ContinuousStructure", ([("CoordSystem", d["cs"])] if d["cs"] or r.random() < .8 else []), kids)
        if d["root"] == "openEMS":
            kids = ([r.choice(["<FDTD/>", '<FDTD NumberOfTimesteps="1000"><Excitation Type="0" f0="1"/><BoundaryCond xmin="PEC"/></FDTD>'])] if r.random() < .8 else []) + [csx]
            if r.random() < .1: kids.reverse()
            body = elem(r, "openEMS", [], kids)
        else: body = csx
        if r.random() < .04:
            d["root"] = "other"; body = r.choice(["<foo>%s</foo>" % csx, "<openEMS><FDTD/></openEMS>", "<CSX/>", body.replace("ContinuousStructure", "Continuous")])
        oe = None
        if r.random() < .6:
            at = []
            for k, (n, ts) in PARAMS.items():
                if r.random() < .5: t = r.choice(ts); d["par"][k] = canon(k, t); at.append((n, t))
            if r.random() < .06:
                n, t = r.choice([("dmax", "0"), ("dmax", "-1"), ("dmax", "nan"), ("dmax", "x"), ("Smoothness", "0.5"), ("Smoothness", "nan"), ("Smoothness", "inf"), ("ProximityLimit", "-1"), ("ProximityLimit", "inf"), ("DiagonalDmax", "0")])
                at = [a for a in at if a[0] != n] + [(n, t)]; d["badp"] = True
            kids = [elem(r, "GlobalParams", at)] if at or r.random() < .5 else []
            if r.random() < .4:
                ls = s.lines(.5); d["fx"] = [[x * 250 for x in l] for l in ls]; d["fu2"] = r.choice([2, 2, 4, 6, 1, 3]); bad = r.random() < .1 and any(ls); fk = []
                for a in range(3):
                    if ls[a]:
                        t = s.linetext(ls[a])
                        if bad: t = r.choice([t + ",x", "nan", "inf," + t, "--1"]); d["badf"] = True
                        fk.append("<%sLines>%s</%sLines>" % ("XYZ"[a], t, "XYZ"[a]))
                du = "%g" % (d["fu2"] / 2)
                if any(ls) and r.random() < .06: du = r.choice(["nan", "inf", "-inf"]); d["badf"] = True; d["fu2"] = 4
                kids.append(elem(r, "FixedMeshlines", [("DeltaUnit", du)] if du != "1" or r.random() < .5 else [], fk))
            if r.random() < .3: kids.reverse()
            oe = elem(r, "OpenEMSH", [], kids)
        tops = [x for x in (oe, body) if x]
        if r.random() < .3: tops.reverse()
        text = r.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8" standalone="yes" ?>\n', ""]) + "\n".join(tops) + r.choice(["", "\n"])
        if r.random() < .04:
            d["wf"] = False
            k = text.rfind("</"); text = r.choice([text[:k], text[:k] + "</oops>", text[:text.find("<", 5) + 3], "", "not xml at all", text.replace("</", "<", 1)] if k > 0 else ["", "junk"])
        return d, text

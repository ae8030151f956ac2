"""Random CSX documents for the session checks (C04-C07, C24): small integer geometry with every feature the mesher reacts to."""
import random

def fmt(v):
    return repr(round(v, 6)).rstrip("0").rstrip(".") if isinstance(v, float) else str(v)

MATS = [('Metal', ''), ('Material', '<Property Epsilon="4.5" Kappa="0.001" />'), ('Material', '<Property Epsilon="1" Kappa="0" />'), ('Material', '<Property Epsilon="1" Kappa="1000" />'),
        ('LumpedElement', ''), ('ConductingSheet', '')]

def box(r, M, flat):
    lo, hi = [], []
    for a in range(3):
        x, y = sorted(r.sample(range(0, M + 1), 2))
        lo.append(x); hi.append(y)
    if flat is not None:
        hi[flat] = lo[flat]
    if r.random() < .2:
        lo, hi = hi, lo
    pr = r.randrange(0, 4)
    return '<Box Priority="%d"><P1 X="%d" Y="%d" Z="%d" /><P2 X="%d" Y="%d" Z="%d" /></Box>' % (pr, *lo, *hi)

def linpoly(r, M, diag):
    x0, x1 = sorted(r.sample(range(0, M + 1), 2)); y0, y1 = sorted(r.sample(range(0, M + 1), 2))
    k = r.randrange(4)
    if diag and k < 2:
        pts = [(x0, y0), (x1, y0), (x1, y1)]
        if k: pts = [(x0, (y0 + y1) / 2), ((x0 + x1) / 2, y0), (x1, (y0 + y1) / 2), ((x0 + x1) / 2, y1)]
    elif diag and k == 2:
        pts = [(x0, y0), (x1, y0), (x1, (y0 + y1) / 2), ((x0 + x1) / 2, y1), (x0, y1)]
    else:
        xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
        pts = [(x0, y0), (x1, y0), (x1, ym), (xm, ym), (xm, y1), (x0, y1)]
    if r.random() < .5: pts.reverse()
    v = "".join('<Vertex X1="%s" X2="%s" />' % (fmt(float(a)), fmt(float(b))) for a, b in pts)
    return '<LinPoly Priority="%d" NormDir="%d" Elevation="%d" Length="%d" CoordSystem="0">%s</LinPoly>' % (r.randrange(0, 4), r.randrange(3), r.randrange(0, M), r.randrange(0, 4), v)

def document(r, kind=None):
    """kind: rect (nothing diagonal), diag, empty (no primitive), mixed"""
    kind = kind or r.choice(["rect", "rect", "diag", "diag", "mixed", "one", "empty"])
    M = r.choice([4, 6, 10])
    n = {"empty": 0, "one": 1}.get(kind, r.randrange(2, 5))
    props = []
    for i in range(n):
        t, inner = r.choice(MATS)
        prims = []
        for _ in range(r.choice([1, 1, 2])):
            if kind in ("rect", "one") and r.random() < .75: prims.append(box(r, M, r.choice([None, None, 0, 1, 2])))
            else: prims.append(linpoly(r, M, kind in ("diag", "mixed")) if r.random() < (.8 if kind == "diag" else .5) else box(r, M, r.choice([None, None, 2])))
        props.append('<%s Name="p%d">%s<Primitives>%s</Primitives></%s>' % (t, i, inner, "".join(prims), t))
    par = ""
    if r.random() < .7:
        fixed = "".join("<%sLines>%s</%sLines>" % (a, ",".join(str(x / 2) for x in sorted(r.sample(range(0, 2 * M + 1), 2))), a) for a in "XYZ" if r.random() < .25)
        par = '<OpenEMSH><GlobalParams ProximityLimit="%s" Smoothness="%s" dmax="%s" lmin="%d" />%s</OpenEMSH>' % (
            r.choice(["0.1", "0.5", "1", "2"]), r.choice(["1.2", "1.5", "2"]), r.choice(["0.5", "1", "2.5"]), r.randrange(1, 4), '<FixedMeshlines DeltaUnit="1">%s</FixedMeshlines>' % fixed if fixed else "")
    bg = r.choice(["", '<BackgroundMaterial Epsilon="1" Mue="1" Kappa="0" Sigma="0" />'])
    return '<?xml version="1.0"?>\n%s<openEMS><FDTD /><ContinuousStructure CoordSystem="0"><RectilinearGrid DeltaUnit="1" CoordSystem="0"><XLines /><YLines /><ZLines /></RectilinearGrid>%s<Properties>%s</Properties></ContinuousStructure></openEMS>\n' % (par, bg, "".join(props))

def edit(r, kinds=("global", "edge", "edge", "edge", "angle", "policy", "policy", "interval", "zone")):
    k = r.choice(kinds)
    i = r.randrange(0, 1000); a = r.randrange(3)
    if k == "global":
        return "global %s %s %d %s %s %s %d" % (r.choice(["0.1", "0.5", "1", "2"]), r.choice(["1.25", "1.5", "2"]), r.randrange(1, 4), r.choice(["0.5", "1", "2", "2.5"]), r.choice(["0", "20", "60", "135"]), r.choice(["0.2", "0.5", "1"]), r.randrange(1, 4))
    if k == "edge": return "edge %d %d %d %d" % (a, i, r.randrange(2), r.randrange(2))
    if k == "angle": return "angle %d %d %d %d" % (a, i, r.randrange(2), r.randrange(2))
    if k == "policy": return "policy %d %d %d %d %d %s" % (a, i, r.randrange(3), r.randrange(2), r.choice([0, 1, 1]), r.choice(["0.5", "1", "2.5"]))
    if k == "interval": return "interval %d %d %s %d %s %d %s" % (a, i, r.choice(["0.5", "1", "2"]), r.randrange(1, 4), r.choice(["1.25", "1.5", "2"]), r.randrange(1, 4), r.choice(["1.25", "1.5", "2"]))
    return "zone %d %d %d %s %s" % (a, i, r.randrange(1, 4), r.choice(["0.2", "0.5", "1"]), r.choice(["20", "60", "135"]))

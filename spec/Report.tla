------------------------------- MODULE Report -------------------------------
(* What the reports of a model (C26) say. A model is what its parts know of themselves and of each other, by identifiers;    *)
(* a report is a set of boxes lying in each other, with facts, and of links between them (PlantUML), or a list of conflicts *)
(* (text). A model's reports are given here as functions of it; what can be read back from them is given independently in   *)
(* MCReport.                                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PlaneNames == <<"YZ", "ZX", "XY">>
AxisNames == <<"X", "Y", "Z">>
Elems(s) == {s[i] : i \in DOMAIN s}
\* all the parts of a kind, with where they lie
Of(parts, names) == UNION {{<<names[k], x>> : x \in Elems(parts[k])} : k \in DOMAIN parts}
Planar(parts) == Of(parts, PlaneNames)
Axial(parts) == Of(parts, AxisNames)
Parts(m) == [polygons |-> Planar(m.polygons), eip |-> Planar(m.eip), colinear |-> Axial(m.colinear), close |-> Axial(m.close),
             policies |-> Axial(m.policies), intervals |-> Axial(m.intervals), lines |-> Axial(m.lines)]
Edges(m) == UNION {Elems(x[2].edges) : x \in Planar(m.polygons)}
EdgeOf(m, id) == CHOOSE e \in Edges(m) : e.id = id
PolygonOf(m, id) == CHOOSE g \in {x[2] : x \in Planar(m.polygons)} : g.id = id
PolicyOf(m, id) == CHOOSE p \in {x[2] : x \in Axial(m.policies)} : p.id = id
Truth(b) == IF b THEN "true" ELSE "false"
OnOff(b) == IF b THEN "#green" ELSE "#red"

-----------------------------------------------------------------------------
\* PlantUML: boxes. Facts are bags: a function from a fact to how many times it is told
Box(id, label, inside, color, pins, facts) == [id |-> id, label |-> label, inside |-> inside, color |-> color, pins |-> pins, facts |-> facts]
Once(S) == [f \in S |-> 1]
EdgeBox(g, e) == Box(e.id, "Edge", g.id, IF ~e.mesh THEN "#red" ELSE IF e.free THEN "#chartreuse" ELSE "#green", {},
                     Once({<<"Normal", e.normal>>, <<"To mesh", Truth(e.mesh)>>}))
PolygonBox(w, g) == Box(g.id, "Polygon " \o g.name, w, "", {"out >"}, Once({<<"rotation", g.rot>>}))
EipBox(m, w, c) == Box(c.id, "Conflict EdgeInPolygon", w, OnOff(EdgeOf(m, c.edge).mesh),
                       {"out >"} \cup {"in" \o ToString(k - 1) \o " <" : k \in DOMAIN c.overlaps}, Once({}))
ColinearFact(m, c, k) == LET e == EdgeOf(m, c.edges[k]) IN <<"Normal", e.normal \o (IF e.mesh THEN " enabled" ELSE " disabled")>>
ColinearBox(m, w, c) ==
    LET told == {ColinearFact(m, c, k) : k \in DOMAIN c.edges}
        sol == IF c.sol = "" THEN {} ELSE {<<"Solution.policy", PolicyOf(m, c.sol).policy>>, <<"Solution.normal", PolicyOf(m, c.sol).normal>>} IN
    Box(c.id, "Conflict ColinearEdges", w, "", {"in <", "out >"},
        Once(sol) @@ [f \in told |-> Cardinality({k \in DOMAIN c.edges : ColinearFact(m, c, k) = f})])
CloseBox(w, c) == Box(c.id, "Conflict TooCloseMeshlinePolicies", w, "", {"in <", "out >"}, Once({}))
PolicyBox(w, p) == Box(p.id, "MeshlinePolicy", w, OnOff(p.on), {"in <", "out >"},
                       Once({<<"Normal", p.normal>>, <<"Is enabled", Truth(p.on)>>, <<"Policy", p.policy>>, <<"d", p.d>>}))
IntervalBox(w, i) == Box(i.id, "Interval", w, "", {"in1 <", "in2 <", "out >"},
                         Once({<<"dmax", i.dmax>>, <<"before.lmin", i.bl>>, <<"before.smoothness", i.bs>>, <<"after.lmin", i.al>>, <<"after.smoothness", i.as>>}))
LineBox(w, l) == Box(l.id, "Meshline", w, "", {}, Once({<<"Coord", l.coord>>}))
Boxes(m) == LET p == Parts(m) IN
    {Box(PlaneNames[k], "Plane " \o PlaneNames[k], "", "", {}, Once({})) : k \in 1..3} \cup {Box(AxisNames[k], "Axis " \o AxisNames[k], "", "", {}, Once({})) : k \in 1..3}
    \cup {PolygonBox(x[1], x[2]) : x \in p.polygons} \cup UNION {{EdgeBox(x[2], e) : e \in Elems(x[2].edges)} : x \in p.polygons}
    \cup {EipBox(m, x[1], x[2]) : x \in p.eip} \cup {ColinearBox(m, x[1], x[2]) : x \in p.colinear} \cup {CloseBox(x[1], x[2]) : x \in p.close}
    \cup {PolicyBox(x[1], x[2]) : x \in p.policies} \cup {IntervalBox(x[1], x[2]) : x \in p.intervals} \cup {LineBox(x[1], x[2]) : x \in p.lines}

\* PlantUML: links, from and to a box or a pin of it
Link(a, ap, b, bp, style) == [a |-> a, ap |-> ap, b |-> b, bp |-> bp, style |-> style]
EipLinks(m, c) ==
    {Link(c.edge, "", c.id, "", ""), Link(c.id, "out", c.edge, "", "bold," \o OnOff(EdgeOf(m, c.edge).mesh))}
    \cup {Link(c.overlaps[k].polygon, "out", c.id, "in" \o ToString(k - 1), "") : k \in DOMAIN c.overlaps}
    \cup {Link(c.overlaps[k].by, "", c.id, "in" \o ToString(k - 1), "") : k \in {k \in DOMAIN c.overlaps : c.overlaps[k].by # ""}}
ColinearLinks(c) == {Link(e, "", c.id, "in", "") : e \in Elems(c.edges)} \cup (IF c.sol = "" THEN {} ELSE {Link(c.id, "out", c.sol, "in", "")})
CloseLinks(c) == {Link(p, "out", c.id, "in", "#red") : p \in Elems(c.policies)} \cup (IF c.sol = "" THEN {} ELSE {Link(c.id, "out", c.sol, "in", "#green")})
PolicyLinks(p) == IF p.edge = "" THEN {} ELSE {Link(p.edge, "", p.id, "in", "#chartreuse")}
IntervalLinks(i) == {Link(i.before, "out", i.id, "in1", ""), Link(i.after, "out", i.id, "in2", "")}
LineLinks(l) == {Link(o, "out", l.id, "", "") : o \in {l.interval, l.policy} \ {""}}
Links(m) == LET p == Parts(m) IN
    UNION {EipLinks(m, x[2]) : x \in p.eip} \cup UNION {ColinearLinks(x[2]) : x \in p.colinear} \cup UNION {CloseLinks(x[2]) : x \in p.close}
    \cup UNION {PolicyLinks(x[2]) : x \in p.policies} \cup UNION {IntervalLinks(x[2]) : x \in p.intervals} \cup UNION {LineLinks(x[2]) : x \in p.lines}

-----------------------------------------------------------------------------
\* the text
TextEdge(m, id) == LET e == EdgeOf(m, id) IN [p0 |-> e.p0, p1 |-> e.p1, axis |-> e.axis, dir |-> e.dir, normal |-> e.normal, mesh |-> e.mesh]
MapSeq(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k])]
TextOverlap(m, o) == LET g == PolygonOf(m, o.polygon) IN
    [name |-> g.name, rot |-> g.rot, edges |-> MapSeq(g.edges, LAMBDA e : TextEdge(m, e.id)), by |-> IF o.by = "" THEN <<>> ELSE <<TextEdge(m, o.by)>>,
     p0 |-> o.p0, p1 |-> o.p1, axis |-> o.axis]
TextEip(m, w, c) == [plane |-> w, edge |-> <<TextEdge(m, c.edge)>>, overlaps |-> MapSeq(c.overlaps, LAMBDA o : TextOverlap(m, o)),
                     outcome |-> IF ~c.solved THEN "" ELSE IF EdgeOf(m, c.edge).mesh THEN "to mesh" ELSE "don't mesh"]
TextColinear(m, c) == [axis |-> c.axis, edges |-> MapSeq(c.edges, LAMBDA e : TextEdge(m, e)), sol |-> IF c.sol = "" THEN "" ELSE PolicyOf(m, c.sol).policy]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
TextEips(m) == Flat([k \in DOMAIN m.eip |-> MapSeq(m.eip[k], LAMBDA c : TextEip(m, PlaneNames[k], c))])
TextColinears(m) == Flat([k \in DOMAIN m.colinear |-> MapSeq(m.colinear[k], LAMBDA c : TextColinear(m, c))])
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) : Count(s, x) = Count(t, x)

-----------------------------------------------------------------------------
\* reports as they are read
Facts(f) == [x \in Elems(f) |-> Count(f, x)]
ReadBox(n) == [n EXCEPT !.pins = Elems(n.pins), !.facts = Facts(n.facts)]
UmlSays(boxes, links, u) == /\ u.junk = <<>>
                            /\ Len(u.nodes) = Cardinality(boxes) /\ {ReadBox(n) : n \in Elems(u.nodes)} = boxes
                            /\ Len(u.links) = Cardinality(links) /\ Elems(u.links) = links
UmlOK(m, u) == UmlSays(Boxes(m), Links(m), u)
TextOK(m, t) == /\ t.junk = <<>> /\ t.close = <<>>
                /\ SameBag(t.eip, TextEips(m)) /\ SameBag(t.colinear, TextColinears(m))
=============================================================================

------------------------------ MODULE Document ------------------------------
(* What a CSX document means to the mesher. A document is a record; Import gives, for the options it is read with, the     *)
(* polygons of each plane, the lines that have to be there, the parameters, the background and what is complained about.   *)
(* Lengths are integers (thousandths of the drawing unit); numbers that are only carried along are texts.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Planes == 1..3                  \* YZ, ZX, XY: named after their normal axis X, Y, Z
U(p) == (p % 3) + 1               \* the axis along which a plane's x runs
V(p) == ((p + 1) % 3) + 1         \* ... and its y
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Range2(a, b) == <<Mn(a, b), Mx(a, b)>>
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Total(_)
Total(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Total(Tail(ns))

-----------------------------------------------------------------------------
\* materials
Ports == {"LumpedElement", "Excitation", "ProbeBox"}
Conductors == {"Metal", "ConductingSheet"}
Dielectrics == {"Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial"}
UnsupportedProps == {"DumpBox", "ResBox", "DiscMaterial", "Unknown"}
\* relative permittivity, permeability (in thousandths) and conductivity decide what a material is
Kind(e, m, k) == IF e = 1000 /\ m = 1000 THEN (IF k = 0 THEN "air" ELSE IF k > 0 THEN "conductor" ELSE "dielectric") ELSE "dielectric"
Mat(q) == CASE q.tag \in Ports -> "port" [] q.tag \in Conductors -> "conductor" [] q.tag \in Dielectrics -> Kind(q.e, q.m, q.k) [] OTHER -> "none"
Relevant(q) == Mat(q) # "none"

-----------------------------------------------------------------------------
\* primitives
UnsupportedPrims == {"Polyhedron", "PolyhedronReader", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "User-Defined"}
Ring(z, pts) == [z |-> z, sh |-> "ring", pts |-> pts]
Circle(z, c, r) == [z |-> z, sh |-> "circle", c |-> c, r |-> r]
BoxIn(p, a, b) == Ring(Range2(a[p], b[p]), <<<<a[U(p)], a[V(p)]>>, <<a[U(p)], b[V(p)]>>, <<b[U(p)], b[V(p)]>>, <<b[U(p)], a[V(p)]>>>>)
\* the axis of a cylinder (that has some length), 0 if it is none of the three
Along(g) == LET S == {k \in 1..3 : \A i \in 1..3 \ {k} : g.a[i] = g.b[i]} IN IF S = {} THEN 0 ELSE SetMin(S)
\* a shape drawn in plane p with some thickness, seen from the others: the box around it
PrismIn(p, g) ==
    LET n == g.nd + 1
        lo == [i \in 1..3 |-> IF i = n THEN g.el ELSE LET j == IF i = U(n) THEN 1 ELSE 2 IN SetMin({g.v[x][j] : x \in 1..Len(g.v)})]
        hi == [i \in 1..3 |-> IF i = n THEN g.el + g.len ELSE LET j == IF i = U(n) THEN 1 ELSE 2 IN SetMax({g.v[x][j] : x \in 1..Len(g.v)})]
    IN IF p = n THEN <<Ring(Range2(g.el, g.el + g.len), g.v)>>
       ELSE IF g.len = 0 THEN <<>> ELSE <<BoxIn(p, lo, hi)>>
\* there and back along the vertices
Trail(v) == v \o [i \in 1..(IF Len(v) > 2 THEN Len(v) - 2 ELSE 0) |-> v[Len(v) - i]]
Shapes(p, g) ==
    CASE g.kind = "Box" -> <<BoxIn(p, g.a, g.b)>>
      [] g.kind = "MultiBox" -> [i \in 1..Mn(Len(g.as), Len(g.bs)) |-> BoxIn(p, g.as[i], g.bs[i])]
      [] g.kind = "LinPoly" -> IF g.nd \notin 0..2 \/ g.v = <<>> THEN <<>> ELSE PrismIn(p, g)
      [] g.kind = "Polygon" -> IF g.v = <<>> \/ p # g.nd + 1 THEN <<>> ELSE <<Ring(<<g.el, g.el>>, g.v)>>
      [] g.kind = "Sphere" -> <<Circle(<<g.a[p] - g.r, g.a[p] + g.r>>, <<g.a[U(p)], g.a[V(p)]>>, g.r)>>
      [] g.kind = "Cylinder" ->
            LET k == Along(g)
                lo == [i \in 1..3 |-> IF i = k THEN g.a[i] ELSE g.a[i] - g.r]
                hi == [i \in 1..3 |-> IF i = k THEN g.b[i] ELSE g.b[i] + g.r]
            IN IF k = 0 THEN <<>> ELSE IF p = k THEN <<Circle(Range2(g.a[p], g.b[p]), <<g.a[U(p)], g.a[V(p)]>>, g.r)>> ELSE <<BoxIn(p, lo, hi)>>
      [] g.kind = "Curve" ->
            IF g.v = <<>> THEN <<>>
            ELSE LET zs == {g.v[i][p] : i \in 1..Len(g.v)} IN <<Ring(<<SetMin(zs), SetMax(zs)>>, Trail([i \in 1..Len(g.v) |-> <<g.v[i][U(p)], g.v[i][V(p)]>>]))>>
      [] OTHER -> <<>>
\* lines a primitive asks for, as <<axis, coordinate>>
Asks(g, on) ==
    CASE g.kind = "Point" -> UNION {{<<U(p), g.a[U(p)]>>, <<V(p), g.a[V(p)]>>} : p \in on}
      [] g.kind = "Polygon" -> IF g.nd \in 0..2 /\ g.v # <<>> THEN {<<g.nd + 1, g.el>>} ELSE {}
      [] OTHER -> {}
\* the complaint about a primitive, if any
Complaint(g) ==
    IF g.tr THEN "Transformed " \o g.kind
    ELSE IF g.kind \in UnsupportedPrims THEN g.kind
    ELSE IF g.kind = "Cylinder" /\ Along(g) = 0 THEN "Cylinder (with diagonal axis)" ELSE ""
Usable(g) == ~g.tr

-----------------------------------------------------------------------------
\* documents
Params == {"pl", "sm", "dm", "lm", "dd", "dl", "da"}
Default == [pl |-> "1", sm |-> "2", dm |-> "2.5", lm |-> "2", dd |-> "0.20000000000000001", dl |-> "2", da |-> "20"]
\* the command line first, then the document, then the default
Effective(cli, docp, reads) == [k \in Params |-> IF cli[k] # "" THEN cli[k] ELSE IF reads /\ docp[k] # "" THEN docp[k] ELSE Default[k]]

Names(d) == [i \in 1..Len(d.props) |-> [j \in 1..Len(d.props[i].prims) |->
              d.props[i].name \o "::" \o ToString(Total([x \in 1..(i - 1) |-> Len(d.props[x].prims)]) + j - 1)]]
Polys(d, p) == Cat([i \in 1..Len(d.props) |-> LET q == d.props[i] IN
    IF ~Relevant(q) THEN <<>> ELSE
    Cat([j \in 1..Len(q.prims) |-> LET g == q.prims[j]  s == Shapes(p, g)  n == Names(d)[i][j] IN
        IF ~Usable(g) THEN <<>> ELSE
        [x \in 1..Len(s) |-> [name |-> n, mn |-> q.name, fc |-> q.fc, ec |-> q.ec, mt |-> Mat(q), pr |-> IF q.tag \in Ports \/ g.kind = "Curve" THEN "max" ELSE g.pr, s |-> s[x]]]])])
Kept(d, o) == LET on == {p \in Planes : o.on[p]} IN
    UNION {UNION {IF Usable(d.props[i].prims[j]) THEN Asks(d.props[i].prims[j], on) ELSE {} : j \in 1..Len(d.props[i].prims)} : i \in {x \in 1..Len(d.props) : Relevant(d.props[x])}}
\* the unit of lines is given in halves
Listed(ls, unit2) == UNION {{<<a, (unit2 * ls[a][i]) \div 2>> : i \in 1..Len(ls[a])} : a \in 1..3}
LongestProp(d) == SetMax({0} \cup {Len(d.props[i].prims) : i \in 1..Len(d.props)})
Warnings(d) ==
    LET ps == {i \in 1..Len(d.props) : d.props[i].tag \in UnsupportedProps}
        gs == {x \in (1..Len(d.props)) \X (1..Mx(1, LongestProp(d))) : x[2] <= Len(d.props[x[1]].prims) /\ Relevant(d.props[x[1]]) /\ Complaint(d.props[x[1]].prims[x[2]]) # ""}
    IN [pt |-> {d.props[i].tag : i \in ps}, pn |-> {d.props[i].name : i \in ps},
        gt |-> {Complaint(d.props[x[1]].prims[x[2]]) : x \in gs}, gn |-> {Names(d)[x[1]][x[2]] : x \in gs}]
Refused(d, o) == \/ ~d.wf \/ d.root = "other" \/ d.cs # 0
                 \/ (o.rp /\ (d.badp \/ d.badf)) \/ (o.kg /\ d.badg)
Import(d, o) ==
    [planes |-> [p \in Planes |-> IF o.on[p] THEN Polys(d, p) ELSE <<>>],
     fixed  |-> Kept(d, o) \cup (IF o.rp THEN Listed(d.fx, d.fu2) ELSE {}) \cup (IF o.kg THEN Listed(d.gr, 2) ELSE {}) \cup Listed(o.fx, 2),
     params |-> Effective(o.cli, d.par, o.rp),
     grid   |-> \E a \in 1..3 : d.gr[a] # <<>>,
     bg     |-> IF d.bg = <<>> THEN "" ELSE Kind(d.bg[1], d.bg[2], d.bg[3]),
     warn   |-> Warnings(d)]
=============================================================================

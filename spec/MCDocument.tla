----------------------------- MODULE MCDocument -----------------------------
(* Every document of at most two properties of one primitive each, out of a small set that has every kind of primitive in   *)
(* every orientation, read with every choice of planes: the meaning given by Document obeys the laws expected of it.        *)
EXTENDS Document
CONSTANTS Full   \* TRUE: all pairs
VARIABLES d, on
vars == <<d, on>>

Pts == {<<0, 0, 0>>, <<2, 0, 3>>, <<1, 4, 3>>}
P == [kind |-> "Point", pr |-> "1", tr |-> FALSE, a |-> <<1, 2, 3>>]
Prims ==
    {[P EXCEPT !.kind = "Box"] @@ [b |-> b] : b \in Pts}
    \cup {[kind |-> "MultiBox", pr |-> "2", tr |-> FALSE, as |-> s, bs |-> <<<<5, 6, 7>>>>] : s \in {<<>>, <<<<0, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 1, 1>>>>}}
    \cup {[kind |-> k, pr |-> "3", tr |-> t, nd |-> n, el |-> 5, len |-> len, v |-> v] : k \in {"LinPoly", "Polygon"}, t \in {FALSE}, n \in 0..3, len \in {0, -2}, v \in {<<>>, <<<<0, 0>>, <<4, 0>>, <<1, 3>>>>}}
    \cup {[kind |-> "Sphere", pr |-> "4", tr |-> t, a |-> <<1, 2, 3>>, r |-> 6] : t \in BOOLEAN}
    \cup {[kind |-> "Cylinder", pr |-> "5", tr |-> FALSE, a |-> <<1, 2, 3>>, b |-> b, r |-> 2] : b \in {<<7, 2, 3>>, <<1, -7, 3>>, <<1, 2, 7>>, <<1, 3, 4>>}}
    \cup {[kind |-> "Curve", pr |-> "6", tr |-> FALSE, v |-> v] : v \in {<<>>, <<<<1, 2, 3>>>>, <<<<1, 2, 3>>, <<4, 0, 3>>>>, <<<<1, 2, 3>>, <<4, 0, 3>>, <<9, 9, 9>>>>}}
    \cup {P, [P EXCEPT !.tr = TRUE], [P EXCEPT !.kind = "Wire"], [P EXCEPT !.kind = "Bogus"]}
Tags == {"Metal", "LumpedElement", "Material", "DumpBox", "Foo"}
Prop(t, g) == [tag |-> t, name |-> "n", e |-> 1000, m |-> 1000, k |-> 0, fc |-> <<1, 2, 3, 4>>, ec |-> <<>>, prims |-> g]
NoneP == [k \in Params |-> ""]
Doc(ps) == [wf |-> TRUE, root |-> "bare", cs |-> 0, badp |-> FALSE, badf |-> FALSE, badg |-> FALSE, bg |-> <<>>, props |-> ps, par |-> NoneP, fx |-> <<<<>>, <<>>, <<>>>>, fu2 |-> 2, gr |-> <<<<>>, <<>>, <<>>>>]
Opt(x) == [on |-> x, rp |-> TRUE, kg |-> FALSE, cli |-> NoneP, fx |-> <<<<>>, <<>>, <<>>>>]
All == <<TRUE, TRUE, TRUE>>
Few == {g \in Prims : g.kind \in {"Box", "Polygon", "Point"}}
Ones == {Prop(t, <<g>>) : t \in Tags, g \in Prims}
Lasts == IF Full THEN Ones ELSE {Prop(t, <<g>>) : t \in {"Metal", "Foo"}, g \in Few} 
Init == on \in (IF Full THEN [Planes -> BOOLEAN] ELSE {All, <<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, FALSE>>}) /\ d \in {Doc(<<q>>) : q \in Ones}
Next == Len(d.props) = 1 /\ \E r \in Lasts : d' = Doc(<<d.props[1], r>>) /\ on' = on
Spec == Init /\ [][Next]_vars
I(doc, x) == Import(doc, Opt(x))
-----------------------------------------------------------------------------
\* a plane that is excluded has nothing, and does not matter to the others
Excluded == \A p \in Planes : I(d, on).planes[p] = IF on[p] THEN I(d, All).planes[p] ELSE <<>>
\* what a document gives is what its properties give, one after the other
Unnamed(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.name = ""]]
Parts == {Doc(<<d.props[i]>>) : i \in 1..Len(d.props)}
Local == Len(d.props) = 2 =>
    LET A == I(Doc(<<d.props[1]>>), on)  B == I(Doc(<<d.props[2]>>), on) IN
    /\ \A p \in Planes : Unnamed(I(d, on).planes[p]) = Unnamed(A.planes[p]) \o Unnamed(B.planes[p])
    /\ I(d, on).fixed = A.fixed \cup B.fixed
    /\ I(d, on).warn.gt = A.warn.gt \cup B.warn.gt /\ I(d, on).warn.pt = A.warn.pt \cup B.warn.pt
\* turning everything (x to y, y to z, z to x) turns what comes out
T3(v) == <<v[3], v[1], v[2]>>
Turn(g) == [f \in DOMAIN g |-> CASE f \in {"a", "b"} -> T3(g[f]) [] f \in {"as", "bs"} -> [i \in 1..Len(g[f]) |-> T3(g[f][i])]
              [] f = "v" /\ g.kind = "Curve" -> [i \in 1..Len(g[f]) |-> T3(g[f][i])] [] f = "nd" -> IF g[f] \in 0..2 THEN (g[f] + 1) % 3 ELSE g[f] [] OTHER -> g[f]]
TurnD == [d EXCEPT !.props = [i \in 1..Len(d.props) |-> [d.props[i] EXCEPT !.prims = [j \in 1..Len(d.props[i].prims) |-> Turn(d.props[i].prims[j])]]]]
Turned == LET x == [p \in Planes |-> on[IF p = 1 THEN 3 ELSE p - 1]] IN
    /\ \A p \in Planes : I(TurnD, x).planes[(p % 3) + 1] = I(d, on).planes[p]
    /\ I(TurnD, x).fixed = {<<(f[1] % 3) + 1, f[2]>> : f \in I(d, on).fixed}
    /\ I(TurnD, x).warn = I(d, on).warn
\* the three views of one primitive agree on its extents
Bound(s, j) == IF s.sh = "circle" THEN <<s.c[j] - s.r, s.c[j] + s.r>> ELSE <<SetMin({s.pts[i][j] : i \in 1..Len(s.pts)}), SetMax({s.pts[i][j] : i \in 1..Len(s.pts)})>>
Coherent == \A i \in 1..Len(d.props) : \A g \in Elems(d.props[i].prims) : \A p \in Planes :
    LET s == Shapes(p, g)  n == Shapes(U(p), g)  m == Shapes(V(p), g) IN
    /\ (s # <<>> /\ Len(n) = Len(s)) => \A k \in 1..Len(s) : Bound(s[k], 1) = n[k].z
    /\ (s # <<>> /\ Len(m) = Len(s)) => \A k \in 1..Len(s) : Bound(s[k], 2) = m[k].z
    /\ g.kind \notin {"Polygon", "LinPoly"} => Len(s) = Len(n)
\* nothing vanishes silently: a primitive of a relevant property shows in some plane, asks for lines, is complained about or has no extent
Accounted == \A i \in 1..Len(d.props) : \A g \in Elems(d.props[i].prims) :
    (Relevant(d.props[i]) /\ g.kind # "Bogus") =>
        \/ \E p \in Planes : Shapes(p, g) # <<>>
        \/ Asks(g, Planes) # {}
        \/ Complaint(g) # ""
        \/ (g.kind \in {"LinPoly", "Polygon", "Curve"} /\ (g.v = <<>> \/ (g.kind # "Curve" /\ g.nd \notin 0..2)))
        \/ (g.kind = "MultiBox" /\ g.as = <<>>)
\* ports and curves come before everything
First == \A p \in Planes : \A k \in 1..Len(I(d, on).planes[p]) : LET g == I(d, on).planes[p][k] IN g.mt = "port" => g.pr = "max"
=============================================================================

------------------------------ MODULE MCGeometry ------------------------------
(* Exhaustive check of the geometry definitions on a small grid: every pair of *)
(* segments and every small polygon of the grid is an initial state.           *)
EXTENDS Geometry, TLC
CONSTANTS N, Mode, NPts
VARIABLES s, t, p, poly
Pts == (0 .. N) \X (0 .. N)
Segs == {<<a, b>> : a \in Pts, b \in Pts}
gvars == <<s, t, p, poly>>
O == <<0, 0>>
InitSeg == /\ s \in {x \in Segs : x[1] # x[2]} /\ t \in {x \in Segs : x[1] # x[2]} /\ p = O /\ poly = <<O>>
InitPoly == /\ s = <<O, O>> /\ t = <<O, O>>
            /\ poly \in {q \in [1 .. NPts -> Pts] : Simple(q)} /\ p \in Pts
GInit == IF Mode = "seg" THEN InitSeg ELSE InitPoly
GNext == FALSE /\ UNCHANGED gvars
GSpec == GInit /\ [][GNext]_gvars
\* segments
C14_Symmetric == Mode = "seg" => /\ SegRel(s, t) = SegRel(t, s)
                                 /\ SegRel(s, t) = SegRel(Flip(s), t)
                                 /\ SegRel(s, t) = SegRel(s, Flip(t))
C14_Definition == Mode = "seg" =>
  \* lattice points shared by both segments are enough to refute APART and COLINEAR
  LET shared == {q \in Pts : OnSegment(q, s) /\ OnSegment(q, t)} IN
  /\ shared # {} => SegRel(s, t) \in {"CROSSING", "OVERLAPPING"}
  /\ SegRel(s, t) = "OVERLAPPING" => shared # {}
  /\ Cardinality(shared) > 1 => SegRel(s, t) = "OVERLAPPING"
  /\ ProperlyCross(s, t) => SegRel(s, t) = "CROSSING"
  /\ (SegRel(s, t) = "CROSSING" /\ ~ ProperlyCross(s, t)) =>
       \E q \in {s[1], s[2], t[1], t[2]} : OnSegment(q, s) /\ OnSegment(q, t)
C14_Parts == (Mode = "seg" /\ SegRel(s, t) = "OVERLAPPING") =>
  LET c == CommonPart(s, t)  u == Union(s, t) IN
  /\ SameSegment(c, CommonPart(t, s)) /\ SameSegment(u, Union(t, s))
  /\ SameSegment(c, CommonPart(Flip(s), t)) /\ SameSegment(u, Union(s, Flip(t)))
  /\ {q \in Pts : OnSegment(q, c)} = {q \in Pts : OnSegment(q, s) /\ OnSegment(q, t)}
  /\ {q \in Pts : OnSegment(q, u)} = {q \in Pts : OnSegment(q, s) \/ OnSegment(q, t)}
\* polygons
C14_PolyInvariant == Mode = "poly" =>
  /\ PointRel(p, poly) = PointRel(p, Reversed(poly))
  /\ PointRel(p, poly) = PointRel(p, Rotated(poly, 1))
  /\ PointRel(p, poly) = PointRel(SwapPt(p), SwapPoly(poly))
C15_Sides == Mode = "poly" => \A i \in DOMAIN poly :
  LET e == Edges(poly)[i]
      a == Area2(poly)
  IN /\ Area2(poly) # 0
     /\ AxisOf(e) = "H" => Outward(poly, i) = (IF (e[2][1] > e[1][1]) = (a > 0) THEN "YMIN" ELSE "YMAX")
     /\ AxisOf(e) = "V" => Outward(poly, i) = (IF (e[2][2] > e[1][2]) = (a > 0) THEN "XMAX" ELSE "XMIN")
     /\ AxisOf(e) = "D" => Outward(poly, i) = "NONE"
\* Pick's theorem ties together area, boundary and inside
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE BSum(_, _)
BSum(es, n) == IF n = 0 THEN 0 ELSE Gcd(Abs(SegVec(es[n])[1]), Abs(SegVec(es[n])[2])) + BSum(es, n - 1)
C14_Pick == (Mode = "poly" /\ p = O) =>
  LET ins == Cardinality({q \in Pts : PointRel(q, poly) = "IN"})
      bnd == Cardinality({q \in Pts : PointRel(q, poly) = "ON"})
  IN /\ bnd = BSum(Edges(poly), Len(poly))
     /\ Abs(Area2(poly)) = 2 * ins + bnd - 2
=============================================================================

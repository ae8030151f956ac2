------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Exact plane geometry on integer coordinates: what segments, points and   *)
(* polygons of the mesher mean.  A point is <<x, y>>, a segment <<p, q>>, a  *)
(* polygon a sequence of points (any orientation, any first vertex).         *)
(* Definitions are the textbook ones, not those of the implementation: the   *)
(* meeting of two segments is decided by solving for it, the side of an edge *)
(* by counting what lies above it, the inside of a polygon by the half open  *)
(* crossing rule.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Vec(p, q) == <<q[1] - p[1], q[2] - p[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Orient(p, q, r) == Sign(Cross(Vec(p, q), Vec(p, r)))
Flip(s) == <<s[2], s[1]>>
SegVec(s) == Vec(s[1], s[2])

InBox(p, s) == /\ Min2(s[1][1], s[2][1]) <= p[1] /\ p[1] <= Max2(s[1][1], s[2][1])
               /\ Min2(s[1][2], s[2][2]) <= p[2] /\ p[2] <= Max2(s[1][2], s[2][2])

(***************************************************************************)
(* Segments                                                                 *)
(***************************************************************************)
OnSegment(p, s) == Orient(s[1], s[2], p) = 0 /\ InBox(p, s)
Parallel(s, t) == Cross(SegVec(s), SegVec(t)) = 0
SameLine(s, t) == Parallel(s, t) /\ Orient(s[1], s[2], t[1]) = 0
Touch1D(a, b, c, d) == Max2(Min2(a, b), Min2(c, d)) <= Min2(Max2(a, b), Max2(c, d))

\* parameters of the meeting of the two lines, as numerators over Den
Den(s, t) == Cross(SegVec(s), SegVec(t))
NumS(s, t) == Cross(Vec(s[1], t[1]), SegVec(t))
NumT(s, t) == Cross(Vec(s[1], t[1]), SegVec(s))
UnitFrac(n, d) == IF d > 0 THEN 0 <= n /\ n <= d ELSE d <= n /\ n <= 0
Inner(n, d) == IF d > 0 THEN 0 < n /\ n < d ELSE d < n /\ n < 0

Meets(s, t) == ~ Parallel(s, t) /\ UnitFrac(NumS(s, t), Den(s, t)) /\ UnitFrac(NumT(s, t), Den(s, t))
ProperlyCross(s, t) == ~ Parallel(s, t) /\ Inner(NumS(s, t), Den(s, t)) /\ Inner(NumT(s, t), Den(s, t))

SegRel(s, t) ==
  IF SameLine(s, t)
  THEN IF /\ Touch1D(s[1][1], s[2][1], t[1][1], t[2][1])
          /\ Touch1D(s[1][2], s[2][2], t[1][2], t[2][2])
       THEN "OVERLAPPING" ELSE "COLINEAR"
  ELSE IF Meets(s, t) THEN "CROSSING" ELSE "APART"

\* is q (scaled by S) the meeting point of the crossing segments s and t, up to tol scaled units
IsMeeting(q, S, tol, s, t) ==
  LET d == Den(s, t)  n == NumS(s, t)  v == SegVec(s) IN
  \A i \in {1, 2} : Abs((q[i] - S * s[1][i]) * d - n * v[i] * S) <= tol * Abs(d)

\* positions along the common line of two colinear segments
LineKey(s, p) == Dot(SegVec(s), p)
Before(s, p, q) == LineKey(s, p) <= LineKey(s, q)
Lo(s, t) == IF Before(s, t[1], t[2]) THEN t[1] ELSE t[2]
Hi(s, t) == IF Before(s, t[1], t[2]) THEN t[2] ELSE t[1]
\* for overlapping segments
CommonPart(s, t) == << IF Before(s, Lo(s, s), Lo(s, t)) THEN Lo(s, t) ELSE Lo(s, s),
                       IF Before(s, Hi(s, s), Hi(s, t)) THEN Hi(s, s) ELSE Hi(s, t) >>
Union(s, t) == << IF Before(s, Lo(s, s), Lo(s, t)) THEN Lo(s, s) ELSE Lo(s, t),
                  IF Before(s, Hi(s, s), Hi(s, t)) THEN Hi(s, t) ELSE Hi(s, s) >>
SameSegment(s, t) == s = t \/ s = Flip(t)

\* H: horizontal, V: vertical, D: diagonal, P: reduced to a point
AxisOf(s) == IF s[1] = s[2] THEN "P" ELSE IF s[1][1] = s[2][1] THEN "V" ELSE IF s[1][2] = s[2][2] THEN "H" ELSE "D"

(***************************************************************************)
(* Polygons                                                                 *)
(***************************************************************************)
Edges(poly) == [i \in DOMAIN poly |-> <<poly[IF i = 1 THEN Len(poly) ELSE i - 1], poly[i]>>]
OnBoundary(p, poly) == \E i \in DOMAIN poly : OnSegment(p, Edges(poly)[i])
\* half open crossing rule on a ray to the right of p
CrossesRay(p, s) ==
  LET a == IF s[1][2] <= s[2][2] THEN s[1] ELSE s[2]
      b == IF s[1][2] <= s[2][2] THEN s[2] ELSE s[1]
  IN a[2] <= p[2] /\ p[2] < b[2] /\ Orient(a, b, p) = 1
PointRel(p, poly) ==
  IF OnBoundary(p, poly) THEN "ON"
  ELSE IF Cardinality({i \in DOMAIN poly : CrossesRay(p, Edges(poly)[i])}) % 2 = 1 THEN "IN" ELSE "OUT"

ScalePt(k, p) == <<k * p[1], k * p[2]>>
ScalePoly(k, poly) == [i \in DOMAIN poly |-> ScalePt(k, poly[i])]
SwapPt(p) == <<p[2], p[1]>>
SwapPoly(poly) == [i \in DOMAIN poly |-> SwapPt(poly[i])]
Reversed(poly) == [i \in DOMAIN poly |-> poly[Len(poly) + 1 - i]]
Rotated(poly, k) == [i \in DOMAIN poly |-> poly[((i + k - 1) % Len(poly)) + 1]]

\* twice the signed area
RECURSIVE AreaSum(_, _)
AreaSum(es, n) == IF n = 0 THEN 0 ELSE Cross(es[n][1], es[n][2]) + AreaSum(es, n - 1)
Area2(poly) == AreaSum(Edges(poly), Len(poly))

\* no two edges meet except consecutive ones at their common vertex
Simple(poly) ==
  LET n == Len(poly)  es == Edges(poly) IN
  /\ n >= 3
  /\ \A i \in 1 .. n : es[i][1] # es[i][2]
  /\ \A i, j \in 1 .. n : i < j =>
       IF j = i + 1 \/ (i = 1 /\ j = n)
       THEN IF SameLine(es[i], es[j])
            THEN IF n = 3 THEN FALSE
                 ELSE LET c == CommonPart(es[i], es[j]) IN c[1] = c[2]
            ELSE TRUE
       ELSE SegRel(es[i], es[j]) \in {"APART", "COLINEAR"}

\* The side on which the outside of a polygon lies along its edge number i: count the edges above
\* (on the right of) the middle of that edge; an odd number means that the inside is on that side.
AboveCount(poly, i) ==  \* for a horizontal edge
  LET es == Edges(poly)
      mx == es[i][1][1] + es[i][2][1]     \* twice the abscissa of the middle
      y == es[i][1][2]
      Above(s) == LET a == IF s[1][1] <= s[2][1] THEN s[1] ELSE s[2]
                      b == IF s[1][1] <= s[2][1] THEN s[2] ELSE s[1]
                  IN 2 * a[1] <= mx /\ mx < 2 * b[1] /\ Orient(ScalePt(2, a), ScalePt(2, b), <<mx, 2 * y>>) = -1
  IN Cardinality({j \in DOMAIN poly : j # i /\ Above(es[j])})
Outward(poly, i) ==
  LET s == Edges(poly)[i] IN
  CASE AxisOf(s) = "H" -> (IF AboveCount(poly, i) % 2 = 1 THEN "YMIN" ELSE "YMAX")
    [] AxisOf(s) = "V" -> (IF AboveCount(SwapPoly(poly), i) % 2 = 1 THEN "XMIN" ELSE "XMAX")
    [] OTHER -> "NONE"
Opposite(n) == CASE n = "XMIN" -> "XMAX" [] n = "XMAX" -> "XMIN" [] n = "YMIN" -> "YMAX" [] n = "YMAX" -> "YMIN" [] OTHER -> n
=============================================================================

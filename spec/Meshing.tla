------------------------------- MODULE Meshing -------------------------------
(***************************************************************************)
(* What each step of the mesher has to do to a board.                       *)
(*                                                                          *)
(* Planes 1 = YZ, 2 = ZX, 3 = XY; axes 1 = X, 2 = Y, 3 = Z; the horizontal    *)
(* and vertical axes of the planes follow.  A board b has                    *)
(*   b.pl[plane]  its polygons: [p vertices, z extent along the normal of the *)
(*                plane <<min, max>>, pr priority, m rank of the material     *)
(*                (0 air < 1 dielectric < 2 conductor < 3 port), f flat]      *)
(*   b.E[plane]   all their edges in order: [g polygon, i number, s segment,  *)
(*                ax "H"/"V"/"D"/"P", n outward side]                         *)
(*   b.bg         rank of the background, -1 if there is none                 *)
(*   b.par        parameters; lengths are scaled by W                         *)
(* The evolving state s has, as recorded by the harness,                      *)
(*   s.ed[plane]  <<to mesh, to reverse>> per edge                            *)
(*   s.an[plane]  angles: point, edges, degrees, marks, ...                   *)
(*   s.zo[axis]   diagonal zones      s.ei[plane]  edge-in-polygon conflicts  *)
(*   s.ce[axis]   colinear conflicts  s.po[axis]   policies                   *)
(*   s.tc[axis]   proximity merges    s.iv[axis]   intervals   s.li lines     *)
(***************************************************************************)
EXTENDS Geometry

W == 65536
Planes == 1 .. 3
Axs == 1 .. 3
ViewAxes == << <<2, 3>>, <<3, 1>>, <<1, 2>> >>
\* the policy of an edge lies on the axis perpendicular to it
PolicyAxis(pl, ax) == IF ax = "H" THEN ViewAxes[pl][2] ELSE ViewAxes[pl][1]
LineCoord(e) == IF e.ax = "H" THEN e.s[1][2] ELSE e.s[1][1]
Aligned(e) == e.ax \in {"H", "V"}

ZTouch(a, b) == Max2(a[1], b[1]) <= Min2(a[2], b[2])
XsOf(p) == {p[i][1] : i \in DOMAIN p}
YsOf(p) == {p[i][2] : i \in DOMAIN p}
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
Box(p) == <<MinOf(XsOf(p)), MaxOf(XsOf(p)), MinOf(YsOf(p)), MaxOf(YsOf(p))>>
SideOf(g, i) == IF g.f THEN "NONE" ELSE Outward(g.p, i)

RECURSIVE FlatEdges(_, _)
FlatEdges(gs, k) ==
  IF k = 0 THEN <<>>
  ELSE FlatEdges(gs, k - 1) \o
       [i \in DOMAIN gs[k].p |-> LET s == Edges(gs[k].p)[i]
                                 IN [g |-> k, i |-> i, s |-> s, ax |-> AxisOf(s), n |-> SideOf(gs[k], i)]]
Prepare(raw) == [pl |-> raw.pl, bg |-> raw.bg, fx |-> raw.fx, par |-> raw.par,
                 E |-> [pl \in Planes |-> FlatEdges(raw.pl[pl], Len(raw.pl[pl]))],
                 box |-> [pl \in Planes |-> [k \in DOMAIN raw.pl[pl] |-> Box(raw.pl[pl][k].p)]]]

(***************************************************************************)
(* C15: dominant material just outside an edge                              *)
(***************************************************************************)
\* does the extent x of a neighbour hold what lies just outside the edge
Beyond(x, e) ==
  LET x0 == Min2(e.s[1][1], e.s[2][1])  x1 == Max2(e.s[1][1], e.s[2][1])
      y0 == Min2(e.s[1][2], e.s[2][2])  y1 == Max2(e.s[1][2], e.s[2][2])
      AlongX == x[1] <= x1 /\ x0 <= x[2]
      AlongY == x[3] <= y1 /\ y0 <= x[4]
  IN CASE e.n = "XMIN" -> AlongY /\ x[1] < x0 /\ x0 <= x[2]
       [] e.n = "XMAX" -> AlongY /\ x[1] <= x0 /\ x0 < x[2]
       [] e.n = "YMIN" -> AlongX /\ x[3] < y0 /\ y0 <= x[4]
       [] e.n = "YMAX" -> AlongX /\ x[3] <= y0 /\ y0 < x[4]
Neighbours(b, pl, e) == {k \in DOMAIN b.pl[pl] : /\ k # e.g
                                                 /\ ZTouch(b.pl[pl][k].z, b.pl[pl][e.g].z)
                                                 /\ Beyond(b.box[pl][k], e)}
Dominates(p, q) == p.pr > q.pr \/ (p.pr = q.pr /\ p.m >= q.m)
OuterRank(b, pl, e) ==
  LET N == Neighbours(b, pl, e) IN
  IF N = {} THEN b.bg
  ELSE b.pl[pl][CHOOSE k \in N : \A j \in N : Dominates(b.pl[pl][k], b.pl[pl][j])].m
ToReverse(b, pl, e) == e.n # "NONE" /\ OuterRank(b, pl, e) > b.pl[pl][e.g].m

AdjustEdges(b, s, t) ==
  \A pl \in Planes :
    /\ Len(s.ed[pl]) = Len(b.E[pl]) /\ Len(t.ed[pl]) = Len(b.E[pl])
    /\ \A k \in DOMAIN b.E[pl] : t.ed[pl][k] = <<s.ed[pl][k][1], s.ed[pl][k][2] \/ ToReverse(b, pl, b.E[pl][k])>>

(***************************************************************************)
(* C09: edges covered by higher priority shapes                             *)
(***************************************************************************)
\* rationals are <<num, den>> with den > 0
RLt(p, q) == p[1] * q[2] < q[1] * p[2]
REq(p, q) == p[1] * q[2] = q[1] * p[2]
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN Abs(x) ELSE Gcd(y, x % y)
Norm(p) == LET g == Gcd(Abs(p[1]), p[2]) IN IF g = 0 THEN p ELSE <<p[1] \div g, p[2] \div g>>
Rat(n, d) == IF d > 0 THEN Norm(<<n, d>>) ELSE Norm(<<-n, -d>>)
Covering(b, pl, e) == {k \in DOMAIN b.pl[pl] : /\ k # e.g /\ b.pl[pl][k].pr >= b.pl[pl][e.g].pr
                                               /\ ZTouch(b.pl[pl][k].z, b.pl[pl][e.g].z)}
\* abscissas along an axis aligned edge at which something of the polygon p happens
Lo1(e) == IF e.ax = "H" THEN Min2(e.s[1][1], e.s[2][1]) ELSE Min2(e.s[1][2], e.s[2][2])
Hi1(e) == IF e.ax = "H" THEN Max2(e.s[1][1], e.s[2][1]) ELSE Max2(e.s[1][2], e.s[2][2])
Along(e, p) == IF e.ax = "H" THEN p[1] ELSE p[2]
Aside(e, p) == IF e.ax = "H" THEN p[2] ELSE p[1]
BreaksOf(e, p) ==
  UNION { LET u == Edges(p)[i][1]  v == Edges(p)[i][2]  c == LineCoord(e)
              a0 == Along(e, u)  a1 == Along(e, v)  h0 == Aside(e, u)  h1 == Aside(e, v)
          IN IF h0 = h1 THEN (IF h0 = c THEN {<<a0, 1>>, <<a1, 1>>} ELSE {})
             ELSE IF Min2(h0, h1) <= c /\ c <= Max2(h0, h1)
                  THEN {Rat(a0 * (h1 - h0) + (c - h0) * (a1 - a0), h1 - h0)} ELSE {}
        : i \in DOMAIN p }
Breaks(e, ps) == LET lo == Lo1(e)  hi == Hi1(e)
                 IN {<<lo, 1>>, <<hi, 1>>} \cup {q \in UNION {BreaksOf(e, p) : p \in ps} : RLt(<<lo, 1>>, q) /\ RLt(q, <<hi, 1>>)}
\* is the point at abscissa q (a rational) of the edge covered by polygon k
CoveredAt(b, pl, e, k, q) ==
  LET d == q[2]
      P == IF e.ax = "H" THEN <<q[1], d * LineCoord(e)>> ELSE <<d * LineCoord(e), q[1]>>
      g == b.pl[pl][k]
  IN \/ PointRel(P, ScalePoly(d, g.p)) = "IN"
     \/ \E j \in DOMAIN b.E[pl] : LET f == b.E[pl][j] IN
          f.g = k /\ f.ax = e.ax /\ f.n # e.n /\ OnSegment(P, <<ScalePt(d, f.s[1]), ScalePt(d, f.s[2])>>)
Buried(b, pl, e) ==
  LET K == Covering(b, pl, e)
      Q == Breaks(e, {b.pl[pl][k].p : k \in K})
  IN K # {} /\ \A q \in Q : REq(q, <<Hi1(e), 1>>) \/
       LET nx == CHOOSE r \in Q : RLt(q, r) /\ \A x \in Q : RLt(q, x) => ~ RLt(x, r)
           mid == Rat(q[1] * nx[2] + nx[1] * q[2], 2 * q[2] * nx[2])
       IN \E k \in K : CoveredAt(b, pl, e, k, mid)

\* the conflicts recorded tell true overlaps
DetectEip(b, s, t) ==
  /\ t.ed = s.ed /\ t.po = s.po
  /\ \A pl \in Planes :
       /\ \A c, d \in DOMAIN t.ei[pl] : t.ei[pl][c][1] = t.ei[pl][d][1] => c = d
       /\ \A c \in DOMAIN t.ei[pl] :
            LET x == t.ei[pl][c]  e == b.E[pl][x[1]] IN
            /\ ~ x[3]
            /\ Aligned(e) =>
                 /\ x[2] # <<>>
                 /\ \A o \in DOMAIN x[2] : LET v == x[2][o] IN
                      /\ v[1] \in Covering(b, pl, e)
                      /\ \A q \in {v[2], v[3]} : OnSegment(q, <<ScalePt(1024, e.s[1]), ScalePt(1024, e.s[2])>>)
                      /\ v[4] # 0 => LET f == b.E[pl][v[4]] IN f.g = v[1] /\ SameLine(e.s, f.s)
                                        /\ \A q \in {v[2], v[3]} : OnSegment(q, <<ScalePt(1024, f.s[1]), ScalePt(1024, f.s[2])>>)
       /\ \A k \in DOMAIN b.E[pl] : Aligned(b.E[pl][k]) /\ Buried(b, pl, b.E[pl][k]) => \E c \in DOMAIN t.ei[pl] : t.ei[pl][c][1] = k
SolveEip(b, s, t) ==
  /\ t.po = s.po
  /\ \A pl \in Planes :
       /\ Len(t.ei[pl]) = Len(s.ei[pl])
       /\ \A c \in DOMAIN s.ei[pl] : t.ei[pl][c][1] = s.ei[pl][c][1] /\ t.ei[pl][c][3]
       /\ \A k \in DOMAIN b.E[pl] :
            /\ t.ed[pl][k][2] = s.ed[pl][k][2]
            /\ Aligned(b.E[pl][k]) => t.ed[pl][k][1] = (s.ed[pl][k][1] /\ ~ Buried(b, pl, b.E[pl][k]))

(***************************************************************************)
(* C08: colinear edges                                                      *)
(***************************************************************************)
Turned(e, flags) == IF flags[2] THEN Opposite(e.n) ELSE e.n
Groups(b, ax) ==
  UNION { LET A == {k \in DOMAIN b.E[pl] : Aligned(b.E[pl][k]) /\ PolicyAxis(pl, b.E[pl][k].ax) = ax}
          IN { {<<pl, k>> : k \in {j \in A : LineCoord(b.E[pl][j]) = c}} : c \in {LineCoord(b.E[pl][j]) : j \in A} }
        : pl \in Planes }
ColinearGroups(b, ax) == {G \in Groups(b, ax) : Cardinality(G) >= 2}
DetectColinear(b, s, t) ==
  /\ t.ed = s.ed /\ t.po = s.po
  /\ \A ax \in Axs :
       LET C == t.ce[ax]
           Set(c) == {C[c][1][i] : i \in DOMAIN C[c][1]} IN
       /\ {Set(c) : c \in DOMAIN C} = ColinearGroups(b, ax)
       /\ Len(C) = Cardinality(ColinearGroups(b, ax))
       /\ \A c \in DOMAIN C : Len(C[c][1]) = Cardinality(Set(c)) /\ C[c][2] = <<0, 0>> /\ ~ C[c][3] /\ C[c][4] = ax
\* kind and direction of the policy of a group, from the directions D of its members to be meshed
GroupPolicy(D) == CASE D = {} -> <<>>
                    [] "NONE" \in D -> <<"ONELINE", "NONE">>
                    [] D \cap {"XMIN", "YMIN"} # {} /\ D \cap {"XMAX", "YMAX"} # {} -> <<"HALFS", "NONE">>
                    [] D \subseteq {"XMIN", "YMIN"} -> <<"THIRDS", "MIN">>
                    [] OTHER -> <<"THIRDS", "MAX">>
Directions(b, s, members) == {Turned(b.E[x[1]][x[2]], s.ed[x[1]][x[2]]) : x \in {y \in members : s.ed[y[1]][y[2]][1]}}
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
GroupCoord(b, members) == LET x == CHOOSE y \in members : TRUE IN W * LineCoord(b.E[x[1]][x[2]])
SolveColinear(b, s, t) ==
  /\ t.ed = s.ed
  /\ \A ax \in Axs :
       LET C == s.ce[ax]  D == t.ce[ax]
           Set(c) == {C[c][1][i] : i \in DOMAIN C[c][1]}
           Want(c) == GroupPolicy(Directions(b, s, Set(c)))
           Real == {c \in DOMAIN C : Want(c) # <<>>}
       IN /\ Len(D) = Len(C) /\ \A c \in DOMAIN C : D[c][1] = C[c][1]
          /\ IsPrefix(s.po[ax], t.po[ax])
          /\ Len(t.po[ax]) = Len(s.po[ax]) + Cardinality(Real)
          /\ \A c \in (DOMAIN C) \ Real : D[c][2] = <<0, 0>>
          /\ \A c \in Real :
               /\ D[c][3] /\ D[c][2][1] = ax /\ D[c][2][2] \in Len(s.po[ax]) + 1 .. Len(t.po[ax])
               /\ LET p == t.po[ax][D[c][2][2]] IN
                  <<p[1], p[2]>> = Want(c) /\ p[3] = GroupCoord(b, Set(c)) /\ p[4] /\ p[6] = <<"C", ax, c>> /\ p[7] = ax
          /\ \A c, d \in Real : D[c][2] = D[d][2] => c = d

(***************************************************************************)
(* C10: policies of fixed lines and of individual edges                      *)
(***************************************************************************)
AddFixed(b, s, t) ==
  /\ t.ed = s.ed /\ t.ce = s.ce
  /\ \A ax \in Axs :
       LET Old == {s.po[ax][i][3] : i \in {j \in DOMAIN s.po[ax] : s.po[ax][j][1] = "ONELINE"}}
           New == {b.fx[ax][i] : i \in DOMAIN b.fx[ax]} \ Old
           N == SubSeq(t.po[ax], Len(s.po[ax]) + 1, Len(t.po[ax]))
       IN /\ IsPrefix(s.po[ax], t.po[ax])
          /\ {N[i][3] : i \in DOMAIN N} = New /\ Len(N) = Cardinality(New)
          /\ \A i \in DOMAIN N : N[i][1] = "ONELINE" /\ N[i][2] = "NONE" /\ N[i][4] /\ N[i][6][1] = "F" /\ N[i][7] = ax
MinMax(n) == CASE n \in {"XMIN", "YMIN"} -> "MIN" [] n \in {"XMAX", "YMAX"} -> "MAX" [] OTHER -> "NONE"
Individual(b, s, t) ==
  LET grouped == [pl \in Planes |-> UNION {UNION {{s.ce[ax][c][1][i][2] : i \in {j \in DOMAIN s.ce[ax][c][1] : s.ce[ax][c][1][j][1] = pl}}
                                            : c \in DOMAIN s.ce[ax]} : ax \in Axs}]
      Alone == {x \in UNION {{pl} \X (DOMAIN b.E[pl]) : pl \in Planes} :
                  Aligned(b.E[x[1]][x[2]]) /\ s.ed[x[1]][x[2]][1] /\ x[2] \notin grouped[x[1]]}
      NAng(ax) == Cardinality({x \in UNION {{pl} \X (DOMAIN s.an[pl]) : pl \in Planes} : \E v \in 1 .. 2 : ViewAxes[x[1]][v] = ax})
      AxisOfEdge(x) == PolicyAxis(x[1], b.E[x[1]][x[2]].ax)
  IN /\ t.ed = s.ed /\ t.ce = s.ce
     /\ \A ax \in Axs :
          LET N == {i \in DOMAIN t.po[ax] : i > Len(s.po[ax])}
              Mine == {x \in Alone : AxisOfEdge(x) = ax}
              Is(i, x) == LET p == t.po[ax][i]  e == b.E[x[1]][x[2]] IN
                /\ p[6] = <<"E", x[1], x[2]>>
                /\ p[1] = "THIRDS" /\ p[2] = MinMax(Turned(e, s.ed[x[1]][x[2]])) /\ p[2] # "NONE"
                /\ p[3] = W * LineCoord(e) /\ p[4] /\ p[7] = ax
          IN /\ IsPrefix(s.po[ax], t.po[ax])
             /\ \A x \in Mine : \E i \in N : Is(i, x)
             /\ \A i \in N : t.po[ax][i][6][1] = "A" \/ \E x \in Mine : Is(i, x)
             /\ Cardinality({i \in N : t.po[ax][i][6][1] # "A"}) = Cardinality(Mine)
             /\ Cardinality({i \in N : t.po[ax][i][6][1] = "A"}) = NAng(ax)

(***************************************************************************)
(* C11: merging of the policies too close to each other                     *)
(***************************************************************************)
\* what two policies become: kind, direction and four times the position (exact middle)
Merged(p, q) ==
  LET mid == p[3] + q[3] IN
  CASE p[1] = "ONELINE" /\ q[1] = "ONELINE" -> <<"ONELINE", "NONE", mid>>
    [] p[1] = "ONELINE" -> <<"ONELINE", "NONE", 2 * p[3]>>
    [] q[1] = "ONELINE" -> <<"ONELINE", "NONE", 2 * q[3]>>
    [] p[1] = "THIRDS" /\ q[1] = "THIRDS" /\ p[2] = q[2] -> <<"THIRDS", p[2], mid>>
    [] OTHER -> <<"HALFS", "NONE", mid>>
RECURSIVE Replay(_, _, _, _, _, _)
\* k merges remain to be replayed from C; on = policies enabled so far, P all the policies in the end
Replay(P, C, k, on, lim, tol) ==
  LET D(a, c) == Abs(P[a][3] - P[c][3]) IN
  IF k > Len(C)
  THEN <<on, \A a, c \in on : a # c => D(a, c) >= lim + (IF tol = 0 THEN 1 ELSE -tol)>>
  ELSE LET a == C[k][1]  c == C[k][2]  r == C[k][3]  m == Merged(P[a], P[c]) IN
       IF /\ a \in on /\ c \in on /\ a # c /\ r \notin on /\ r \in DOMAIN P /\ C[k][4]
          /\ D(a, c) <= lim + tol
          /\ \A x, y \in on : x # y => D(x, y) >= D(a, c) - tol
          /\ P[r][1] = m[1] /\ P[r][2] = m[2] /\ Abs(2 * P[r][3] - m[3]) <= 2 * tol
          /\ P[r][6][1] = "T" /\ P[r][6][3] = k
       THEN Replay(P, C, k + 1, (on \ {a, c}) \cup {r}, lim, tol)
       ELSE <<on, FALSE>>
MergeClose(b, s, t) ==
  \A ax \in Axs :
    LET P == t.po[ax]  n == Len(s.po[ax])  C == t.tc[ax]
        tol == IF s.x /\ t.x THEN 0 ELSE 2
        R == Replay(P, C, 1, {i \in 1 .. n : s.po[ax][i][4]}, b.par.prox, tol)
    IN /\ s.tc[ax] = <<>>
       /\ Len(P) = n + Len(C)
       /\ \A i \in 1 .. n : LET p == s.po[ax][i]  q == P[i] IN \A f \in {1, 2, 3, 5, 6, 7} : q[f] = p[f]
       /\ {C[k][3] : k \in DOMAIN C} = n + 1 .. Len(P)
       /\ \A i \in DOMAIN P : P[i][7] = ax
       /\ R[2] /\ R[1] = {i \in DOMAIN P : P[i][4]}

(***************************************************************************)
(* C12: intervals                                                           *)
(***************************************************************************)
Enabled(P) == {i \in DOMAIN P : P[i][4]}
MakeIntervals(b, s, t) ==
  \A ax \in Axs :
    LET P == s.po[ax]  Q == t.po[ax]  I == t.iv[ax]
        Cs == {P[i][3] : i \in Enabled(P)}
        Near(i) == {k \in DOMAIN I : i \in {I[k][1], I[k][2]}}
    IN /\ s.iv[ax] = <<>>
       /\ Len(Q) = Len(P)
       /\ Len(I) = (IF Cs = {} THEN 0 ELSE Cardinality(Cs) - 1)
       /\ \A k \in DOMAIN I :
            LET p == P[I[k][1]]  q == P[I[k][2]] IN
            /\ p[4] /\ q[4] /\ p[3] < q[3]
            /\ \A c \in Cs : c <= p[3] \/ c >= q[3]
            /\ k > 1 => P[I[k-1][2]][3] = p[3]
            /\ Abs(I[k][3] - (q[3] - p[3])) <= 1 /\ Abs(I[k][4] - (p[3] + q[3])) <= 1
            /\ I[k][5] = b.par.dmax /\ I[k][6] = <<b.par.lmin, b.par.lmin>> /\ I[k][7] = <<b.par.sm, b.par.sm>>
            /\ I[k][8] = <<>> /\ I[k][9] = ax
       \* a policy keeps everything but its spacing, which fits into the halves of the intervals around it
       /\ \A i \in DOMAIN P :
            LET H == {I[k][3] : k \in Near(i)} IN
            /\ \A f \in {1, 2, 3, 4, 6, 7} : Q[i][f] = P[i][f]
            /\ IF H = {} THEN Q[i][5] = P[i][5]
               ELSE Abs(2 * Q[i][5] - Min2(2 * P[i][5], MinOf(H))) <= 2

(***************************************************************************)
(* C13: mesh lines                                                          *)
(***************************************************************************)
\* distance from a policy to its own line on the side of larger (up) or smaller coordinates, times 6
FirstLine6(p, up) ==
  CASE p[1] = "ONELINE" -> 0
    [] p[1] = "HALFS" -> 3 * p[5]
    [] p[2] = "NONE" -> 6 * p[5]
    [] OTHER -> IF (p[2] = "MAX") = up THEN 4 * p[5] ELSE 2 * p[5]
\* the distances seq from the policy p to the middle, its own line first, are a legal grading
Grading(seq, d, sm16, dmax) ==
  \A k \in 2 .. Len(seq) :
    LET g == seq[k] - seq[k-1]  prev == IF k = 2 THEN d ELSE seq[k-1] - seq[k-2] IN
    g >= -1 /\ 16 * (g - 3) <= prev * sm16 /\ g <= dmax + 2
Half(lines, iv, p, up, lmin, sm, dmax) ==
  \* lines: coordinates of the lines of this half in increasing order, the middle included
  LET n == Len(lines)
      dist == [k \in 1 .. n |-> IF up THEN lines[k] - p[3] ELSE p[3] - lines[n + 1 - k]]
      seq == IF p[1] = "ONELINE" THEN <<0>> \o dist ELSE dist
  IN /\ n >= 1
     /\ Abs(2 * (IF up THEN lines[n] ELSE lines[1]) - iv[4]) <= 3
     /\ Abs(6 * seq[1] - FirstLine6(p, up)) <= 15
     /\ Len(seq) >= 2 /\ Len(seq) - 1 >= lmin
     /\ p[5] <= dmax + 2
     /\ Grading(seq, p[5], (sm * 16 + 500000) \div 1000000, dmax)
MeshInterval(P, L, iv, i) ==
  LET K == {k \in DOMAIN L : L[k][2] = i}
      \* only lines of one policy lines stand between them
      X == SelectSeq(SubSeq(L, MinOf(K), MaxOf(K)), LAMBDA x : x[2] = i)
      C == [k \in DOMAIN X |-> X[k][1]]
      p == P[iv[1]]  q == P[iv[2]]
      \* the middle line: the one recorded without a policy
      M == {k \in DOMAIN X : X[k][3] = 0}
  IN /\ K # {} /\ Cardinality(M) = 1
     /\ LET m == CHOOSE k \in M : TRUE IN
        /\ \A k \in DOMAIN X : (k < m => X[k][3] = iv[1]) /\ (k > m => X[k][3] = iv[2])
        /\ Half(SubSeq(C, 1, m), iv, p, TRUE, iv[6][1], iv[7][1], iv[5])
        /\ Half(SubSeq(C, m, Len(C)), iv, q, FALSE, iv[6][2], iv[7][2], iv[5])
MakeMesh(b, s, t) ==
  \A ax \in Axs :
    LET P == t.po[ax]  L == t.li[ax]  I == s.iv[ax]
        One == {i \in DOMAIN P : P[i][4] /\ P[i][1] = "ONELINE"}
    IN /\ s.li[ax] = <<>>
       /\ Len(P) = Len(s.po[ax]) /\ Len(t.iv[ax]) = Len(I)
       /\ \A i \in DOMAIN P : \A f \in {1, 2, 3, 4, 6, 7} : P[i][f] = s.po[ax][i][f]
       /\ \A k \in DOMAIN I : \A f \in {1, 2, 3, 4, 8, 9} : t.iv[ax][k][f] = I[k][f]
       /\ \A k \in 2 .. Len(L) : L[k-1][1] <= L[k][1]
       /\ (Cardinality({P[i][3] : i \in Enabled(P)}) = Cardinality(Enabled(P))) => t.mg[ax] >= 50
       /\ \A k \in DOMAIN L : L[k][2] # 0 \/ L[k][3] \in One
       /\ \A i \in One : Cardinality({k \in DOMAIN L : L[k] = <<P[i][3], 0, i>>}) = 1
       /\ \A k \in DOMAIN I : MeshInterval(P, L, I[k], k)
       /\ t.pm[ax] = LET E == SelectSeq(P, LAMBDA p : p[4]) IN [k \in DOMAIN E |-> E[k][3]]

(***************************************************************************)
(* C16: diagonals                                                           *)
(***************************************************************************)
Tan1000 == << 0, 17, 34, 52, 69, 87, 105, 122, 140, 158, 176, 194, 212, 230, 249, 267, 286, 305, 324, 344, 363, 383, 404, 424, 445, 466, 487, 509, 531, 554, 577, 600, 624, 649, 674, 700, 726, 753, 781, 809, 839, 869, 900, 932, 965, 999, 1035, 1072, 1110, 1150, 1191, 1234, 1279, 1327, 1376, 1428, 1482, 1539, 1600, 1664, 1732, 1804, 1880, 1962, 2050, 2144, 2246, 2355, 2475, 2605, 2747, 2904, 3077, 3270, 3487, 3732, 4010, 4331, 4704, 5144, 5671, 6313, 7115, 8144, 9514, 11430, 14300, 19081, 28636, 57289 >>
\* tangent of k degrees, 0 <= k <= 89
Tan(k) == Tan1000[k + 1]
\* is the angle of the vectors u and v about md thousandths of a degree
AngleIs(u, v, md) ==
  LET c == Abs(Cross(u, v))  d == Dot(u, v)
      a == IF md <= 90000 THEN md ELSE 180000 - md
      f == a \div 1000
  IN /\ 0 <= md /\ md <= 180000
     /\ (d > 0 => md < 90000) /\ (d < 0 => md > 90000) /\ (d = 0 => md = 90000)
     /\ (c = 0 => a = 0) /\ (c = Abs(d) => a = 45000)
     /\ (f >= 1 => Tan(f - 1) * Abs(d) <= c * 1000)
     /\ (f <= 87 => c * 1000 <= (Tan(f + 2) + 1) * Abs(d))
NextIn(b, pl, k) == \* the edge following edge k in its polygon
  LET e == b.E[pl][k]  n == Len(b.pl[pl][e.g].p) IN IF e.i = n THEN k - n + 1 ELSE k + 1
VertexPairs(b, pl) == {<<k, NextIn(b, pl, k)>> : k \in {j \in DOMAIN b.E[pl] : b.E[pl][j].ax = "D" \/ b.E[pl][NextIn(b, pl, j)].ax = "D"}}
DiagPairs(b, pl) == {<<i, j>> \in (DOMAIN b.E[pl]) \X (DOMAIN b.E[pl]) :
                       b.E[pl][i].g < b.E[pl][j].g /\ "D" \in {b.E[pl][i].ax, b.E[pl][j].ax}}
MustCross(e, f) == /\ e.ax # "P" /\ f.ax # "P" /\ Meets(e.s, f.s)
                   /\ \/ e.ax = "D" /\ Inner(NumS(e.s, f.s), Den(e.s, f.s))
                      \/ f.ax = "D" /\ Inner(NumT(e.s, f.s), Den(e.s, f.s))
MayCross(e, f) == "P" \in {e.ax, f.ax} \/ Meets(e.s, f.s)
FindAngles(b, s, t) ==
  \A pl \in Planes :
    LET A == t.an[pl]
        Es == b.E[pl]
        V == VertexPairs(b, pl)
        X == {<<i, j>> \in DiagPairs(b, pl) : MustCross(Es[i], Es[j])}
        Pair(a) == <<a[2], a[3]>>
        At(x) == {k \in DOMAIN A : Pair(A[k]) = x \/ Pair(A[k]) = <<x[2], x[1]>>}
    IN /\ s.an[pl] = <<>>
       /\ \A x \in V : Cardinality({k \in At(x) : A[k][1] = ScalePt(1024, Es[x[1]].s[2])}) = 1
       /\ \A x \in X : Cardinality(At(x)) = 1
       /\ \A k \in DOMAIN A :
            LET a == A[k]  e == Es[a[2]]  f == Es[a[3]] IN
            /\ a[7] = pl /\ a[8] = pl /\ a[9] = pl
            /\ a[5] = <<FALSE, FALSE>>
            /\ Abs(a[6][1] - 64 * a[1][1]) <= 33 /\ Abs(a[6][2] - 64 * a[1][2]) <= 33
            /\ AngleIs(SegVec(e.s), SegVec(f.s), a[4])
            /\ IF e.g = f.g
               THEN <<a[2], a[3]>> \in V /\ a[1] = ScalePt(1024, e.s[2])
               ELSE /\ "D" \in {e.ax, f.ax} /\ MayCross(e, f)
                    /\ IF "P" \in {e.ax, f.ax}
                       THEN LET u == IF e.ax = "P" THEN e.s[1] ELSE f.s[1]
                                h == IF e.ax = "P" THEN f.s ELSE e.s
                            IN OnSegment(u, h) /\ a[1] = ScalePt(1024, u)
                       ELSE IsMeeting(a[1], 1024, 1, e.s, f.s)
                    /\ \A j \in DOMAIN A : Pair(A[j]) = Pair(a) => j = k

\* view axis of plane pl along the axis ax, 0 if there is none
ViewOf(pl, ax) == IF ViewAxes[pl][1] = ax THEN 1 ELSE IF ViewAxes[pl][2] = ax THEN 2 ELSE 0
\* extents along the view axis v of the diagonal edges to be meshed
Spans(b, s, pl, v) ==
  {<<Min2(b.E[pl][k].s[1][v], b.E[pl][k].s[2][v]), Max2(b.E[pl][k].s[1][v], b.E[pl][k].s[2][v])>>
     : k \in {j \in DOMAIN b.E[pl] : b.E[pl][j].ax = "D" /\ s.ed[pl][j][1]}}
\* the extents of the unions of spans touching each other
RECURSIVE Join(_)
Join(R) ==
  IF \E p, q \in R : p # q /\ p[1] <= q[2] /\ q[1] <= p[2]
  THEN LET p == CHOOSE x \in R : \E y \in R : x # y /\ x[1] <= y[2] /\ y[1] <= x[2]
           q == CHOOSE y \in R : p # y /\ p[1] <= y[2] /\ y[1] <= p[2]
       IN Join((R \ {p, q}) \cup {<<Min2(p[1], q[1]), Max2(p[2], q[2])>>})
  ELSE R
FindZones(b, s, t) ==
  /\ t.ed = s.ed /\ t.an = s.an
  /\ \A ax \in Axs :
       LET Z == t.zo[ax]
           Here == {pl \in Planes : ViewOf(pl, ax) # 0}
           Want == UNION {{<<pl, r>> : r \in Join(Spans(b, s, pl, ViewOf(pl, ax)))} : pl \in Here}
           AnglesOf(x) == {k \in DOMAIN s.an[x[1]] : LET c == s.an[x[1]][k][6][ViewOf(x[1], ax)] IN
                                                      W * x[2][1] - 1 <= c /\ c <= W * x[2][2] + 1}
           Is(z, x) == /\ {z[1][i] : i \in DOMAIN z[1]} = {x[1]} \X AnglesOf(x)
                       /\ Len(z[1]) = Cardinality(AnglesOf(x))
                       /\ Abs(z[5][1] - W * x[2][1]) <= 1 /\ Abs(z[5][2] - W * x[2][2]) <= 1
       IN /\ s.zo[ax] = <<>>
          /\ Len(Z) = Cardinality(Want)
          /\ \A x \in Want : Cardinality({z \in DOMAIN Z : Is(Z[z], x)}) = 1
          /\ \A z \in DOMAIN Z : Z[z][2] = b.par.ddmax /\ Z[z][4] = b.par.mina /\ Z[z][6] = <<>> /\ Z[z][7] = ax
\* a line is wanted at both ends of a zone and at the angles of it which are open enough
SolveAngles(b, s, t) ==
  /\ t.ed = s.ed /\ t.zo = s.zo
  /\ \A pl \in Planes :
       /\ Len(t.an[pl]) = Len(s.an[pl])
       /\ \A k \in DOMAIN s.an[pl] :
            /\ \A f \in (1 .. 9) \ {5} : t.an[pl][k][f] = s.an[pl][k][f]
            /\ \A v \in 1 .. 2 :
                 LET ax == ViewAxes[pl][v]
                     Zs == {z \in DOMAIN s.zo[ax] : \E i \in DOMAIN s.zo[ax][z][1] : s.zo[ax][z][1][i] = <<pl, k>>}
                     c == s.an[pl][k][6][v]
                     mark == t.an[pl][k][5][v]
                 IN IF Zs = {} THEN mark = s.an[pl][k][5][v]
                    ELSE LET z == s.zo[ax][CHOOSE y \in Zs : TRUE]
                             open == s.an[pl][k][4] - z[4]
                         IN Abs(open) >= 2 =>
                              IF z[5][1] + 1 < c /\ c < z[5][2] - 1
                              THEN mark = (open > 0)
                              ELSE open > 0 => mark
  /\ \A ax \in Axs : \A z \in DOMAIN s.zo[ax] :
       LET Z == s.zo[ax][z] IN
       \A f \in 1 .. 2 : \E i \in DOMAIN Z[1] :
         LET pl == Z[1][i][1]  k == Z[1][i][2]  v == ViewOf(pl, ax) IN
         Abs(t.an[pl][k][6][v] - Z[5][f]) <= 1 /\ t.an[pl][k][5][v]
\* every angle yields halves on both axes, in force where a line is wanted
AnglePolicies(b, s, t) ==
  /\ t.an = s.an /\ t.zo = s.zo /\ t.ed = s.ed
  /\ \A ax \in Axs : IsPrefix(s.po[ax], t.po[ax])
  /\ \A ax \in Axs :
       LET N == {i \in DOMAIN t.po[ax] : i > Len(s.po[ax]) /\ t.po[ax][i][6][1] = "A"}
           Want == {x \in UNION {{pl} \X (DOMAIN s.an[pl]) : pl \in Planes} : ViewOf(x[1], ax) # 0}
       IN /\ Cardinality(N) = Cardinality(Want)
          /\ \A x \in Want : \E i \in N : LET p == t.po[ax][i]  a == s.an[x[1]][x[2]]  v == ViewOf(x[1], ax) IN
               p[6] = <<"A", x[1], x[2]>> /\ p[1] = "HALFS" /\ p[2] = "NONE" /\ p[3] = a[6][v] /\ p[4] = a[5][v] /\ p[7] = ax
\* i[4] is twice the middle of the interval
InsideZone(z, i) == 2 * z[5][1] <= i[4] /\ i[4] <= 2 * z[5][2]
AtBound(z, i) == Abs(2 * z[5][1] - i[4]) <= 2 \/ Abs(2 * z[5][2] - i[4]) <= 2
AttachIntervals(b, s, t) ==
  /\ t.ed = s.ed /\ t.an = s.an /\ t.po = s.po
  /\ \A ax \in Axs :
       LET Z == t.zo[ax]  I == t.iv[ax] IN
       /\ Len(Z) = Len(s.zo[ax]) /\ Len(I) = Len(s.iv[ax])
       /\ \A z \in DOMAIN Z :
            /\ s.zo[ax][z][6] = <<>>
            /\ \A f \in (1 .. 7) \ {6} : Z[z][f] = s.zo[ax][z][f]
            /\ \A i \in DOMAIN I : AtBound(Z[z], I[i]) \/ Cardinality({j \in DOMAIN Z[z][6] : Z[z][6][j] = i}) = (IF InsideZone(Z[z], I[i]) THEN 1 ELSE 0)
            /\ \A j \in DOMAIN Z[z][6] : Z[z][6][j] \in DOMAIN I /\ (InsideZone(Z[z], I[Z[z][6][j]]) \/ AtBound(Z[z], I[Z[z][6][j]]))
       /\ \A i \in DOMAIN I :
            /\ \A f \in (1 .. 9) \ {8} : I[i][f] = s.iv[ax][i][f]
            /\ {I[i][8][j] : j \in DOMAIN I[i][8]} = {z \in DOMAIN Z : \E j \in DOMAIN Z[z][6] : Z[z][6][j] = i}
RefineZones(b, s, t) ==
  /\ t.ed = s.ed /\ t.an = s.an /\ t.po = s.po /\ t.zo = s.zo
  /\ \A ax \in Axs :
       /\ Len(t.iv[ax]) = Len(s.iv[ax])
       /\ \A i \in DOMAIN t.iv[ax] :
            LET Zs == {s.iv[ax][i][8][j] : j \in DOMAIN s.iv[ax][i][8]} IN
            /\ \A f \in (1 .. 9) \ {5} : t.iv[ax][i][f] = s.iv[ax][i][f]
            /\ IF Zs = {} THEN t.iv[ax][i][5] = s.iv[ax][i][5]
               ELSE t.iv[ax][i][5] \in {s.zo[ax][z][2] : z \in Zs}
=============================================================================

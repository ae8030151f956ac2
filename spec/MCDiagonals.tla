------------------------------ MODULE MCDiagonals ------------------------------
(***************************************************************************)
(* Diagonal edges (C16): angles, zones, marks, policies and the intervals     *)
(* within zones, for every board of a few slanted shapes on a small grid.     *)
(*                                                                          *)
(* As in MCBoard the steps are constructed by other means than the relations *)
(* of Meshing (zones are runs of adjacent covered units; meetings are where  *)
(* the lattice of a sixtieth of the grid says), have to be accepted, and      *)
(* changes of them have to be rejected.                                      *)
(***************************************************************************)
EXTENDS Meshing, TLC
CONSTANTS N, NShapes, Quads, MinAngles
VARIABLES shapes, phase, board, s
vars == <<shapes, phase, board, s>>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Pts == (0 .. N) \X (0 .. N)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Slanted(q) == \E i \in DOMAIN q : AxisOf(Edges(q)[i]) = "D"
\* polygons starting at their least vertex, both ways round
Tris == {<<a, b, c>> \in Pts \X Pts \X Pts : Less(a, b) /\ Less(a, c) /\ Simple(<<a, b, c>>) /\ Slanted(<<a, b, c>>)}
Qs == IF Quads THEN {q \in {<< <<0, 1>>, <<1, 0>>, <<2, 1>>, <<1, 2>> >>, << <<0, 0>>, <<1, 0>>, <<2, 2>>, <<0, 1>> >>, << <<0, 0>>, <<2, 0>>, <<2, 1>>, <<0, 1>> >>} : TRUE} ELSE {}
Polygons == {[p |-> q, z |-> <<0, 1>>, pr |-> 0, m |-> 2, f |-> FALSE] : q \in Tris \cup Qs}
NoLines == [ax \in Axs |-> <<>>]
NoPlanes == [pl \in Planes |-> <<>>]
Params(a) == [prox |-> 0, dmax |-> 5 * W, ddmax |-> W, mina |-> a, lmin |-> 2, sm |-> 1500000]
Raw(gs, a) == Prepare([pl |-> [pl \in Planes |-> IF pl = 3 THEN gs ELSE <<>>], bg |-> 0, fx |-> NoLines, par |-> Params(a)])
Start(b) == [ed |-> [pl \in Planes |-> [k \in DOMAIN b.E[pl] |-> <<TRUE, FALSE>>]], an |-> NoPlanes, zo |-> NoLines, ce |-> NoLines, po |-> NoLines, iv |-> NoLines]

\* the meeting of two edges which are not parallel, in points of the lattice of 1/1024
Round(n, d) == LET a == IF d < 0 THEN -n ELSE n  c == Abs(d) IN (2 * a + c) \div (2 * c)
MeetAt(e, f) == LET d == Den(e, f)  n == NumS(e, f)  v == SegVec(e) IN
                <<1024 * e[1][1] + Round(1024 * n * v[1], d), 1024 * e[1][2] + Round(1024 * n * v[2], d)>>
\* the degrees from 0 to 180 which the angle of u and v may have
Degrees(u, v) == {a \in 0 .. 180 : AngleIs(u, v, 1000 * a)}
Open(e, f) == 1000 * (CHOOSE a \in Degrees(SegVec(e), SegVec(f)) : TRUE)
Angle(pt, i, j, e, f) == <<pt, i, j, Open(e, f), <<FALSE, FALSE>>, <<64 * pt[1], 64 * pt[2]>>, 3, 3, 3>>
AnglesOf(b, t) ==
  LET E == b.E[3]
      V == {<<i, j>> \in (DOMAIN E) \X (DOMAIN E) : /\ E[i].g = E[j].g /\ E[j].i = (E[i].i % Len(b.pl[3][E[i].g].p)) + 1
                                                    /\ "D" \in {E[i].ax, E[j].ax}}
      X == {<<i, j>> \in (DOMAIN E) \X (DOMAIN E) : E[i].g < E[j].g /\ "D" \in {E[i].ax, E[j].ax} /\ SegRel(E[i].s, E[j].s) = "CROSSING"}
      A == ToSeq({Angle(ScalePt(1024, E[x[1]].s[2]), x[1], x[2], E[x[1]].s, E[x[2]].s) : x \in V})
      Z == ToSeq({Angle(MeetAt(E[x[1]].s, E[x[2]].s), x[1], x[2], E[x[1]].s, E[x[2]].s) : x \in X})
  IN [t EXCEPT !.an[3] = A \o Z]
\* runs of units covered by spans
UnitsOf(R) == UNION {r[1] .. r[2] - 1 : r \in R}
Runs(R) == LET S == UnitsOf(R) IN
           {<<a, 1 + (CHOOSE z \in S : a <= z /\ a .. z \subseteq S /\ (z + 1) \notin S)>> : a \in {x \in S : (x - 1) \notin S}}
ZonesOf(b, t) ==
  [t EXCEPT !.zo = [ax \in Axs |->
     IF ax = 3 THEN <<>>
     ELSE LET v == ViewOf(3, ax)
              R == ToSeq(Runs(Spans(b, t, 3, v)))
              Members(r) == ToSeq({<<3, k>> : k \in {j \in DOMAIN t.an[3] : W * r[1] - 1 <= t.an[3][j][6][v] /\ t.an[3][j][6][v] <= W * r[2] + 1}})
          IN [i \in DOMAIN R |-> <<Members(R[i]), b.par.ddmax, 2, b.par.mina, <<W * R[i][1], W * R[i][2]>>, <<>>, ax>>]]]
Near(a, b) == Abs(a - b) <= 1
MarksOf(b, t) ==
  [t EXCEPT !.an[3] = [k \in DOMAIN @ |-> [@[k] EXCEPT ![5] = [v \in 1 .. 2 |->
     LET Zs == {z \in DOMAIN t.zo[ViewAxes[3][v]] : \E i \in DOMAIN t.zo[ViewAxes[3][v]][z][1] : t.zo[ViewAxes[3][v]][z][1][i] = <<3, k>>} IN
     \E z \in Zs : LET Z == t.zo[ViewAxes[3][v]][z] IN t.an[3][k][4] > Z[4] \/ Near(t.an[3][k][6][v], Z[5][1]) \/ Near(t.an[3][k][6][v], Z[5][2])]]]]
PoliciesOf(b, t) ==
  [t EXCEPT !.po = [ax \in Axs |-> IF ViewOf(3, ax) = 0 THEN <<>>
                                   ELSE [k \in DOMAIN t.an[3] |-> <<"HALFS", "NONE", t.an[3][k][6][ViewOf(3, ax)], t.an[3][k][5][ViewOf(3, ax)], b.par.dmax, <<"A", 3, k>>, ax>>]]]
\* the places of the policies in force, those too close to each other but once
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted({x \in S : x > m + 64})
IntervalsOf(b, t) ==
  [t EXCEPT !.iv = [ax \in Axs |->
     LET C == Sorted({t.po[ax][i][3] : i \in Enabled(t.po[ax])})
         AtC(c) == CHOOSE i \in Enabled(t.po[ax]) : t.po[ax][i][3] = c
     IN [k \in 1 .. (IF C = <<>> THEN 0 ELSE Len(C) - 1) |->
           <<AtC(C[k]), AtC(C[k + 1]), C[k + 1] - C[k], C[k] + C[k + 1], b.par.dmax, <<2, 2>>, <<1500000, 1500000>>, <<>>, ax>>]]]
Middle(i) == i[4] \div 2
AttachOf(b, t) ==
  LET In(ax) == {<<z, i>> \in (DOMAIN t.zo[ax]) \X (DOMAIN t.iv[ax]) : t.zo[ax][z][5][1] <= Middle(t.iv[ax][i]) /\ Middle(t.iv[ax][i]) <= t.zo[ax][z][5][2]}
  IN [t EXCEPT !.zo = [ax \in Axs |-> [z \in DOMAIN t.zo[ax] |-> [t.zo[ax][z] EXCEPT ![6] = ToSeq({x[2] : x \in {y \in In(ax) : y[1] = z}})]]],
               !.iv = [ax \in Axs |-> [i \in DOMAIN t.iv[ax] |-> [t.iv[ax][i] EXCEPT ![8] = ToSeq({x[1] : x \in {y \in In(ax) : y[2] = i}})]]]]
RefineOf(b, t) == [t EXCEPT !.iv = [ax \in Axs |-> [i \in DOMAIN t.iv[ax] |-> IF t.iv[ax][i][8] = <<>> THEN t.iv[ax][i] ELSE [t.iv[ax][i] EXCEPT ![5] = b.par.ddmax]]]]

Order == <<"ANGLES", "ZONES", "SOLVE_ANGLES", "INDIV", "INTERVALS", "INTERVALS_ZONES", "SOLVE_ZONES">>
Construct(op, b, t) == CASE op = "ANGLES" -> AnglesOf(b, t) [] op = "ZONES" -> ZonesOf(b, t) [] op = "SOLVE_ANGLES" -> MarksOf(b, t)
                         [] op = "INDIV" -> PoliciesOf(b, t) [] op = "INTERVALS" -> IntervalsOf(b, t) [] op = "INTERVALS_ZONES" -> AttachOf(b, t) [] OTHER -> RefineOf(b, t)
Relation(op, b, t, u) == CASE op = "ANGLES" -> FindAngles(b, t, u) [] op = "ZONES" -> FindZones(b, t, u) [] op = "SOLVE_ANGLES" -> SolveAngles(b, t, u)
                           [] op = "INDIV" -> AnglePolicies(b, t, u) [] op = "INTERVALS" -> TRUE [] op = "INTERVALS_ZONES" -> AttachIntervals(b, t, u) [] OTHER -> RefineZones(b, t, u)
Init == shapes = <<>> /\ phase = 0 /\ board = <<>> /\ s = <<>>
AddShape == phase = 0 /\ Len(shapes) < NShapes /\ (\E g \in Polygons : shapes' = Append(shapes, g)) /\ UNCHANGED <<phase, board, s>>
Begin == phase = 0 /\ Len(shapes) > 0 /\ phase' = 1 /\ (\E a \in MinAngles : board' = TLCEval(Raw(shapes, 1000 * a))) /\ s' = TLCEval(Start(board')) /\ UNCHANGED shapes
Step == phase \in DOMAIN Order /\ phase' = phase + 1 /\ s' = TLCEval(Construct(Order[phase], board, s)) /\ UNCHANGED <<shapes, board>>
Next == AddShape \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

Accepted == [][(phase \in DOMAIN Order) => Relation(Order[phase], board, s, s')]_vars
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Slips(op, b, t, u) ==
  CASE op = "ANGLES" -> {[u EXCEPT !.an[3] = Without(@, k)] : k \in {j \in DOMAIN u.an[3] : LET e == b.E[3][u.an[3][j][2]]  f == b.E[3][u.an[3][j][3]] IN e.g = f.g \/ MustCross(e, f)}}
                        \cup {[u EXCEPT !.an[3] = Append(@, @[k])] : k \in DOMAIN u.an[3]}
                        \cup {[u EXCEPT !.an[3][k][4] = IF @ > 90000 THEN @ - 5000 ELSE @ + 5000] : k \in DOMAIN u.an[3]}
                        \cup {[u EXCEPT !.an[3][k][1][1] = @ + 3] : k \in DOMAIN u.an[3]}
                        \cup {[u EXCEPT !.an[3][k][2] = (@ % Len(b.E[3])) + 1] : k \in DOMAIN u.an[3]}
    [] op = "ZONES" -> UNION {{[u EXCEPT !.zo[ax] = Without(@, k)] : k \in DOMAIN u.zo[ax]} : ax \in Axs}
                       \cup UNION {{[u EXCEPT !.zo[ax][k][1] = Tail(@)] : k \in DOMAIN u.zo[ax]} : ax \in Axs}
                       \cup UNION {{[u EXCEPT !.zo[ax][k][5][1] = @ + 4] : k \in DOMAIN u.zo[ax]} : ax \in Axs}
                       \cup UNION {{[u EXCEPT !.zo[ax][k][4] = @ + 1] : k \in DOMAIN u.zo[ax]} : ax \in Axs}
    [] op = "SOLVE_ANGLES" -> {[u EXCEPT !.an[3] = [k \in DOMAIN @ |-> [@[k] EXCEPT ![5][v] = FALSE]]] : v \in 1 .. 2}
    [] op = "INDIV" -> UNION {{[u EXCEPT !.po[ax] = Without(@, k)] : k \in DOMAIN u.po[ax]} : ax \in Axs}
                       \cup UNION {{[u EXCEPT !.po[ax][k][4] = ~ @] : k \in DOMAIN u.po[ax]} : ax \in Axs}
                       \cup UNION {{[u EXCEPT !.po[ax][k][1] = "THIRDS"] : k \in DOMAIN u.po[ax]} : ax \in Axs}
    [] op = "SOLVE_ZONES" -> UNION {{[u EXCEPT !.iv[ax][k][5] = @ + 1] : k \in DOMAIN u.iv[ax]} : ax \in Axs}
    [] OTHER -> {}
Tight == [][(phase \in DOMAIN Order) => \A u \in Slips(Order[phase], board, s, s') : u = s' \/ ~ Relation(Order[phase], board, s, TLCEval(u))]_vars

(***************************************************************************)
(* Laws                                                                      *)
(***************************************************************************)
\* the angle of two directions is one of a few degrees and does not depend on the way they are written
Vecs == {<<x, y>> \in (-N .. N) \X (-N .. N) : <<x, y>> # <<0, 0>>}
Neg(v) == <<-v[1], -v[2]>>
Turn(v) == <<-v[2], v[1]>>
C16_Angle == phase = 0 /\ shapes = <<>> => \A u, v \in Vecs :
  LET A == Degrees(u, v) IN
  /\ A # {} /\ MaxOf(A) - MinOf(A) <= 3
  /\ A = Degrees(v, u) /\ A = Degrees(Turn(u), Turn(v)) /\ A = Degrees(Neg(u), Neg(v))
  /\ {180 - a : a \in A} = Degrees(u, Neg(v))
  /\ (v = u => 0 \in A) /\ (v = Turn(u) => A = {90}) /\ (v = <<u[1] - u[2], u[1] + u[2]>> => A = {45})
\* joining spans and covering units come to the same
C16_Join == phase >= 2 => \A v \in 1 .. 2 : LET R == Spans(board, s, 3, v) IN
  /\ Join(R) = Runs(R) /\ Join(Join(R)) = Join(R)
  /\ \A p, q \in Join(R) : p # q => p[2] < q[1] \/ q[2] < p[1]
  /\ \A r \in R : \E p \in Join(R) : p[1] <= r[1] /\ r[2] <= p[2]
Done == phase = Len(Order) + 1
\* every diagonal edge has lines at both ends of the zone it is in, on both axes
C16_Ends == Done => \A k \in DOMAIN board.E[3] : board.E[3][k].ax = "D" => \A v \in 1 .. 2 :
  LET ax == ViewAxes[3][v]  e == board.E[3][k] IN
  \E z \in DOMAIN s.zo[ax] : /\ s.zo[ax][z][5][1] <= W * Min2(e.s[1][v], e.s[2][v]) /\ W * Max2(e.s[1][v], e.s[2][v]) <= s.zo[ax][z][5][2]
                             /\ \A f \in 1 .. 2 : \E i \in Enabled(s.po[ax]) : Near(s.po[ax][i][3], s.zo[ax][z][5][f])
\* every stretch between two lines which a diagonal edge goes through is refined, and no other one
C16_Refined == Done => \A v \in 1 .. 2 : LET ax == ViewAxes[3][v] IN \A i \in DOMAIN s.iv[ax] :
  (s.iv[ax][i][5] = board.par.ddmax) = (\E k \in DOMAIN board.E[3] : LET e == board.E[3][k] IN
      e.ax = "D" /\ 2 * W * Min2(e.s[1][v], e.s[2][v]) <= s.iv[ax][i][4] /\ s.iv[ax][i][4] <= 2 * W * Max2(e.s[1][v], e.s[2][v]))
=============================================================================

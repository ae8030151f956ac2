-------------------------------- MODULE MCBoard --------------------------------
(***************************************************************************)
(* Small boards taken through the steps of Meshing (C08, C09, C10, C15).     *)
(*                                                                          *)
(* The steps are constructed here by other means than the relations of       *)
(* Meshing (an edge is buried when every unit of it has a covering shape     *)
(* just outside, sampled point by point; policies are listed edge by edge),  *)
(* and                                                                       *)
(*  - every step so constructed has to be accepted by its relation: nothing  *)
(*    impossible is asked from an implementation;                            *)
(*  - every small change of such a step has to be rejected by its relation:  *)
(*    nothing is left open;                                                  *)
(*  - the policies which come out obey the laws a user relies on, whichever  *)
(*    the board: every edge to be meshed gets its line, nothing else does,   *)
(*    and mirrored, turned, reordered or retraced boards get the mirrored,   *)
(*    turned or same policies.                                               *)
(* All the shapes are drawn in plane 3 (XY).                                 *)
(***************************************************************************)
EXTENDS Meshing, TLC
CONSTANTS N,        \* the grid is 0 .. N
          NShapes,  \* shapes on a board
          Zs, Prs, Ms, Bgs, Fxs,   \* extents, priorities, materials, backgrounds and fixed lines
          Triangles
VARIABLES shapes, bg, fx, phase, board, s
vars == <<shapes, bg, fx, phase, board, s>>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Rects == {<< <<x[1], x[3]>>, <<x[2], x[3]>>, <<x[2], x[4]>>, <<x[1], x[4]>> >> :
            x \in {y \in (0 .. N) \X (0 .. N) \X (0 .. N) \X (0 .. N) : y[1] < y[2] /\ y[3] < y[4]}}
\* right triangles, a flat box, an L
Others == IF ~ Triangles THEN {} ELSE
            { << <<0, 0>>, <<N, 0>>, <<0, N>> >>, << <<0, 0>>, <<N, N>>, <<N, 0>> >>,
              << <<0, 1>>, <<N, 1>> >>, << <<1, 0>>, <<1, N>> >>,
              << <<0, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 2>> >> }
Shapes == [p : Rects \cup Others, z : Zs, pr : Prs, m : Ms]
Shape(g) == [p |-> g.p, z |-> g.z, pr |-> g.pr, m |-> g.m, f |-> Len(g.p) = 2]
NoLines == [ax \in Axs |-> <<>>]
BgsD == {-1, 2}
Zs1 == {<<0, 1>>}
ZsQ == {<<0, 1>>, <<1, 2>>}
FxsQ == {[NoLines EXCEPT ![1] = <<W>>]}
Raw(gs, b0, f0) == TLCEval(Prepare([pl |-> [pl \in Planes |-> IF pl = 3 THEN [k \in DOMAIN gs |-> Shape(gs[k])] ELSE <<>>],
                            bg |-> b0, fx |-> f0, par |-> [prox |-> 0]]))

(***************************************************************************)
(* Steps, constructed                                                        *)
(***************************************************************************)
Start(b) == [ed |-> [pl \in Planes |-> [k \in DOMAIN b.E[pl] |-> <<TRUE, FALSE>>]],
             an |-> [pl \in Planes |-> <<>>], ei |-> [pl \in Planes |-> <<>>],
             ce |-> NoLines, po |-> NoLines]
\* twice doubled coordinates: the unit is a quarter
Just(e, u) == \* a point a quarter outside the middle of the unit of the edge e which starts at u
  LET c == 4 * LineCoord(e)  a == 4 * u + 2
      off == IF e.n \in {"XMIN", "YMIN"} THEN -1 ELSE 1
  IN IF e.ax = "H" THEN <<a, c + off>> ELSE <<c + off, a>>
Middle(e, u) == LET c == 4 * LineCoord(e)  a == 4 * u + 2 IN IF e.ax = "H" THEN <<a, c>> ELSE <<c, a>>
Units(e) == Lo1(e) .. (Hi1(e) - 1)
CoversUnit(b, k, e, u) ==
  LET g == b.pl[3][k] IN
  /\ k # e.g /\ g.pr >= b.pl[3][e.g].pr /\ ZTouch(g.z, b.pl[3][e.g].z)
  /\ IF g.f THEN e.n # "NONE" /\ OnSegment(Middle(e, u), <<ScalePt(4, g.p[1]), ScalePt(4, g.p[2])>>)
     ELSE PointRel(IF e.n = "NONE" THEN Middle(e, u) ELSE Just(e, u), ScalePoly(4, g.p)) # "OUT"
BuriedUnits(b, e) == \A u \in Units(e) : \E k \in DOMAIN b.pl[3] : CoversUnit(b, k, e, u)
AdjustOf(b, t) == [t EXCEPT !.ed[3] = [k \in DOMAIN @ |-> <<@[k][1], @[k][2] \/ ToReverse(b, 3, b.E[3][k])>>]]
EipOf(b, t) ==
  LET K == {k \in DOMAIN b.E[3] : Aligned(b.E[3][k]) /\ \E u \in Units(b.E[3][k]) : \E j \in DOMAIN b.pl[3] : CoversUnit(b, j, b.E[3][k], u)}
      At(e, u) == IF e.ax = "H" THEN <<u, LineCoord(e)>> ELSE <<LineCoord(e), u>>
      One(k) == LET e == b.E[3][k]
                    O == {<<j, u>> \in (DOMAIN b.pl[3]) \X Units(e) : CoversUnit(b, j, e, u)}
                    Q == ToSeq(O)
                IN <<k, [i \in DOMAIN Q |-> <<Q[i][1], ScalePt(1024, At(e, Q[i][2])), ScalePt(1024, At(e, Q[i][2] + 1)), 0>>], FALSE>>
      Ks == ToSeq(K)
  IN [t EXCEPT !.ei[3] = [i \in DOMAIN Ks |-> One(Ks[i])]]
SolveEipOf(b, t) ==
  [t EXCEPT !.ei[3] = [i \in DOMAIN @ |-> <<@[i][1], @[i][2], TRUE>>],
            !.ed[3] = [k \in DOMAIN @ |-> <<@[k][1] /\ ~ (Aligned(b.E[3][k]) /\ BuriedUnits(b, b.E[3][k])), @[k][2]>>]]
Mates(b, k) == {j \in DOMAIN b.E[3] : b.E[3][j].ax = b.E[3][k].ax /\ LineCoord(b.E[3][j]) = LineCoord(b.E[3][k])}
CeOf(b, t) ==
  [t EXCEPT !.ce = [ax \in Axs |->
     LET K == {k \in DOMAIN b.E[3] : Aligned(b.E[3][k]) /\ PolicyAxis(3, b.E[3][k].ax) = ax /\ Cardinality(Mates(b, k)) > 1}
         Gs == ToSeq({Mates(b, k) : k \in K})
     IN [i \in DOMAIN Gs |-> LET Q == ToSeq(Gs[i]) IN <<[j \in DOMAIN Q |-> <<3, Q[j]>>], <<0, 0>>, FALSE, ax>>]]]
Line(kind, dir, c, org, ax) == <<kind, dir, c, TRUE, 0, org, ax>>
FixedOf(b, t) ==
  [t EXCEPT !.po = [ax \in Axs |-> t.po[ax] \o
     LET Q == ToSeq({b.fx[ax][i] : i \in DOMAIN b.fx[ax]}) IN [i \in DOMAIN Q |-> Line("ONELINE", "NONE", Q[i], <<"F", ax, i>>, ax)]]]
\* the side which the shape of an edge to be meshed shows, taking the material outside into account
Side(b, t, k) == LET e == b.E[3][k] IN IF ToReverse(b, 3, e) THEN Opposite(e.n) ELSE e.n
Low(n) == n \in {"XMIN", "YMIN"}
SolveCeOf(b, t) ==
  LET Live(ax, c) == {t.ce[ax][c][1][i][2] : i \in {j \in DOMAIN t.ce[ax][c][1] : t.ed[3][t.ce[ax][c][1][j][2]][1]}}
      Pol(ax, c) == LET D == {Side(b, t, k) : k \in Live(ax, c)}
                        k0 == t.ce[ax][c][1][1][2]
                        kd == IF "NONE" \in D THEN <<"ONELINE", "NONE">>
                              ELSE IF \A n \in D : Low(n) THEN <<"THIRDS", "MIN">>
                              ELSE IF \A n \in D : ~ Low(n) THEN <<"THIRDS", "MAX">> ELSE <<"HALFS", "NONE">>
                    IN Line(kd[1], kd[2], W * LineCoord(b.E[3][k0]), <<"C", ax, c>>, ax)
      Real(ax) == ToSeq({c \in DOMAIN t.ce[ax] : Live(ax, c) # {}})
  IN [t EXCEPT !.po = [ax \in Axs |-> t.po[ax] \o [i \in DOMAIN Real(ax) |-> Pol(ax, Real(ax)[i])]],
               !.ce = [ax \in Axs |-> [c \in DOMAIN t.ce[ax] |->
                         IF Live(ax, c) = {} THEN t.ce[ax][c]
                         ELSE <<t.ce[ax][c][1], <<ax, Len(t.po[ax]) + (CHOOSE i \in DOMAIN Real(ax) : Real(ax)[i] = c)>>, TRUE, ax>>]]]
IndivOf(b, t) ==
  [t EXCEPT !.po = [ax \in Axs |-> t.po[ax] \o
     LET Q == ToSeq({k \in DOMAIN b.E[3] : Aligned(b.E[3][k]) /\ PolicyAxis(3, b.E[3][k].ax) = ax /\ t.ed[3][k][1] /\ Mates(b, k) = {k}})
     IN [i \in DOMAIN Q |-> Line("THIRDS", IF Low(Side(b, t, Q[i])) THEN "MIN" ELSE "MAX", W * LineCoord(b.E[3][Q[i]]), <<"E", 3, Q[i]>>, ax)]]]

Order == <<"ADJUST", "EIP", "CE", "FIXED", "SOLVE_EIP", "SOLVE_CE", "INDIV">>
Construct(op, b, t) == CASE op = "ADJUST" -> AdjustOf(b, t) [] op = "EIP" -> EipOf(b, t) [] op = "CE" -> CeOf(b, t)
                         [] op = "FIXED" -> FixedOf(b, t) [] op = "SOLVE_EIP" -> SolveEipOf(b, t)
                         [] op = "SOLVE_CE" -> SolveCeOf(b, t) [] op = "INDIV" -> IndivOf(b, t)
Relation(op, b, t, u) == CASE op = "ADJUST" -> AdjustEdges(b, t, u) [] op = "EIP" -> DetectEip(b, t, u) [] op = "CE" -> DetectColinear(b, t, u)
                           [] op = "FIXED" -> AddFixed(b, t, u) [] op = "SOLVE_EIP" -> SolveEip(b, t, u)
                           [] op = "SOLVE_CE" -> SolveColinear(b, t, u) [] op = "INDIV" -> Individual(b, t, u)

Init == shapes = <<>> /\ bg \in Bgs /\ fx \in Fxs /\ phase = 0 /\ board = <<>> /\ s = <<>>
AddShape == /\ phase = 0 /\ Len(shapes) < NShapes /\ \E g \in Shapes : shapes' = Append(shapes, g)
            /\ UNCHANGED <<bg, fx, phase, board, s>>
Begin == phase = 0 /\ Len(shapes) = NShapes /\ phase' = 1 /\ board' = Raw(shapes, bg, fx) /\ s' = TLCEval(Start(board')) /\ UNCHANGED <<shapes, bg, fx>>
Step == phase \in DOMAIN Order /\ phase' = phase + 1 /\ s' = TLCEval(Construct(Order[phase], board, s)) /\ UNCHANGED <<shapes, bg, fx, board>>
Next == AddShape \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Checks                                                                    *)
(***************************************************************************)
Accepted == [][(phase \in DOMAIN Order) => Relation(Order[phase], board, s, s')]_vars
\* a state which differs a little from the one constructed
FlipEd(t, k, f) == [t EXCEPT !.ed[3][k][f] = ~ @]
OtherKind(p) == IF p[1] = "ONELINE" THEN [p EXCEPT ![1] = "HALFS"]
                ELSE IF p[1] = "HALFS" THEN [p EXCEPT ![1] = "THIRDS"]
                ELSE [p EXCEPT ![2] = IF @ = "MIN" THEN "MAX" ELSE "MIN"]
Slips(op, b, t, u) ==
  LET n(ax) == Len(t.po[ax]) + 1 .. Len(u.po[ax]) IN
  CASE op = "ADJUST" -> {FlipEd(u, k, f) : k \in DOMAIN u.ed[3], f \in 1 .. 2}
    [] op = "SOLVE_EIP" -> {FlipEd(u, k, f) : k \in {j \in DOMAIN u.ed[3] : Aligned(b.E[3][j])}, f \in 1 .. 2}
    [] op = "CE" -> UNION {{[u EXCEPT !.ce[ax] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] : i \in DOMAIN u.ce[ax]} : ax \in Axs}
                    \cup UNION {{[u EXCEPT !.ce[ax][i][1] = Tail(@)] : i \in DOMAIN u.ce[ax]} : ax \in Axs}
    [] op \in {"FIXED", "SOLVE_CE", "INDIV"} ->
         UNION {{[u EXCEPT !.po[ax] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] : i \in n(ax)} : ax \in Axs}
         \cup UNION {{[u EXCEPT !.po[ax] = Append(@, @[i])] : i \in n(ax)} : ax \in Axs}
         \cup UNION {{[u EXCEPT !.po[ax][i] = OtherKind(@)] : i \in n(ax)} : ax \in Axs}
         \cup UNION {{[u EXCEPT !.po[ax][i][3] = @ + 1] : i \in n(ax)} : ax \in Axs}
         \cup UNION {{[u EXCEPT !.po[ax][i][4] = FALSE] : i \in n(ax)} : ax \in Axs}
    [] OTHER -> {}
Tight == [][(phase \in DOMAIN Order) => \A u \in Slips(Order[phase], board, s, s') : ~ Relation(Order[phase], board, s, TLCEval(u))]_vars

\* what comes out for a whole board
\* (sets of one element are there for TLC to evaluate what they hold once)
RECURSIVE Through(_, _, _)
Through(b, t, i) == IF i > Len(Order) THEN t
                    ELSE CHOOSE r \in {Through(b, u, i + 1) : u \in {TLCEval(Construct(Order[i], b, t))}} : TRUE
Lines(t) == UNION {{<<ax, t.po[ax][i][1], t.po[ax][i][2], t.po[ax][i][3]>> : i \in DOMAIN t.po[ax]} : ax \in Axs}
Run(c) == UNION {UNION {Lines(t) : t \in {Through(b, TLCEval(Start(b)), 1)}} : b \in {c}}
Done == phase = Len(Order) + 1
Out == Lines(s)
\* C10: every edge to be meshed has its line or lines, and no other place has
C10_Covered ==
  Done => LET b == board
              Wanted == {<<PolicyAxis(3, b.E[3][k].ax), W * LineCoord(b.E[3][k])>> : k \in {j \in DOMAIN b.E[3] : Aligned(b.E[3][j]) /\ s.ed[3][j][1]}}
              Fixed == UNION {{<<ax, fx[ax][i]>> : i \in DOMAIN fx[ax]} : ax \in Axs}
          IN {<<o[1], o[4]>> : o \in Out} = Wanted \cup Fixed
\* C08: one policy per place, besides the one of a fixed line
C08_OnePerPlace ==
  Done => \A ax \in Axs : \A i, j \in DOMAIN s.po[ax] :
            (i # j /\ s.po[ax][i][3] = s.po[ax][j][3]) => "F" \in {s.po[ax][i][6][1], s.po[ax][j][6][1]}
\* C09: an edge nothing of equal or higher priority touches is always meshed
C09_Free == Done => LET b == board IN \A k \in DOMAIN b.E[3] :
              (Aligned(b.E[3][k]) /\ ~ s.ed[3][k][1]) => Covering(b, 3, b.E[3][k]) # {}
\* C09: the definitions agree
C09_Buried == phase = 1 => LET b == board IN \A k \in DOMAIN b.E[3] : Aligned(b.E[3][k]) => (Buried(b, 3, b.E[3][k]) <=> BuriedUnits(b, b.E[3][k]))
\* C15: where two shapes face each other along an edge, the one of the lower material is turned, and only that one
C15_Facing ==
  phase = 2 => LET b == board IN
    \A i, j \in DOMAIN b.E[3] :
      LET e == b.E[3][i]  f == b.E[3][j]  p == b.pl[3][e.g]  q == b.pl[3][f.g] IN
      (/\ Len(shapes) = 2 /\ e.g # f.g /\ Aligned(e) /\ e.ax = f.ax /\ e.s \in {f.s, Flip(f.s)} /\ e.n = Opposite(f.n) /\ e.n # "NONE"
       /\ ZTouch(p.z, q.z))
      => (s.ed[3][i][2] <=> q.m > p.m) /\ (s.ed[3][j][2] <=> p.m > q.m)
\* mirrored, turned and reordered boards
MirrorPt(v) == <<N - v[1], v[2]>>
MapShapes(F(_)) == [k \in DOMAIN shapes |-> [shapes[k] EXCEPT !.p = [i \in DOMAIN @ |-> F(@[i])]]]
MirrorLine(o) == IF o[1] = 1 THEN <<1, o[2], CASE o[3] = "MIN" -> "MAX" [] o[3] = "MAX" -> "MIN" [] OTHER -> o[3], W * N - o[4]>> ELSE o
SwapLine(o) == <<CASE o[1] = 1 -> 2 [] o[1] = 2 -> 1 [] OTHER -> 3, o[2], o[3], o[4]>>
Laws_Mirror == Done => Run(Raw(MapShapes(MirrorPt), bg, [ax \in Axs |-> [i \in DOMAIN fx[ax] |-> IF ax = 1 THEN W * N - fx[ax][i] ELSE fx[ax][i]]])) = {MirrorLine(o) : o \in Out}
Laws_Swap == Done => Run(Raw(MapShapes(SwapPt), bg, <<fx[2], fx[1], fx[3]>>)) = {SwapLine(o) : o \in Out}
Laws_Retrace == Done => Run(Raw([k \in DOMAIN shapes |-> [shapes[k] EXCEPT !.p = Rotated(Reversed(@), 1)]], bg, fx)) = Out
Laws_Order == Done => Run(Raw(Reversed(shapes), bg, fx)) = Out
=============================================================================
